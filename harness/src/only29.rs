//! modules that import only what they use (written by tools/gencorpus.py)
use crate::pre::*;
type Str = str;
#[macro_export] macro_rules! poison29 { ($($n:ident)*) => { poison29!{ @ ($) $($n)* } }; (@ ($d:tt) $($n:ident)*) => { $( macro_rules! $n { ($d($d t:tt)*) => { ::laby::RenderRaw("POISON") } } )* } }
use laby::Render as R9;
pub struct Pair<T>(pub T); impl<T: laby::Render> laby::Render for Pair<T> { fn render(self, b: &mut Buffer) { self.0.render(b) } }
mod q0_0 { use super::{Str, Pair}; use laby::{p};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { p!(x, a = x, "k", c = 1) } }
mod q0_1 { use super::{Str, Pair}; use laby::{p}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag frag_match classes bool iter iter_lines raw disp render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { p!(x, a = x, "k", c = 1) } }
mod q0_2 { use super::{Str, Pair}; use laby::{p}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { p!(x, a = x, "k", c = 1) } }
mod q1_0 { use super::{Str, Pair}; use laby::{img};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { img!(src = x, alt = "q") } }
mod q1_1 { use super::{Str, Pair}; use laby::{img}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr input link meta param source track wbr frag frag_match classes bool iter iter_lines raw disp render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { img!(src = x, alt = "q") } }
mod q1_2 { use super::{Str, Pair}; use laby::{img}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { img!(src = x, alt = "q") } }
mod q2_0 { use super::{Str, Pair}; use laby::{frag};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag!(x, 1, x, "<") } }
mod q2_1 { use super::{Str, Pair}; use laby::{frag}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag_match classes bool iter iter_lines raw disp render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag!(x, 1, x, "<") } }
mod q2_2 { use super::{Str, Pair}; use laby::{frag}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag!(x, 1, x, "<") } }
mod q3_0 { use super::{Str, Pair}; use laby::{frag};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag!() } }
mod q3_1 { use super::{Str, Pair}; use laby::{frag}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag_match classes bool iter iter_lines raw disp render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag!() } }
mod q3_2 { use super::{Str, Pair}; use laby::{frag}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag!() } }
mod q4_0 { use super::{Str, Pair}; use laby::{classes};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { classes!(x, "b", x) } }
mod q4_1 { use super::{Str, Pair}; use laby::{classes}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag frag_match bool iter iter_lines raw disp render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { classes!(x, "b", x) } }
mod q4_2 { use super::{Str, Pair}; use laby::{classes}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { classes!(x, "b", x) } }
mod q5_0 { use super::{Str, Pair}; use laby::{frag_match};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag_match!(if k { x } else { 3 }) } }
mod q5_1 { use super::{Str, Pair}; use laby::{frag_match}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag classes bool iter iter_lines raw disp render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag_match!(if k { x } else { 3 }) } }
mod q5_2 { use super::{Str, Pair}; use laby::{frag_match}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag_match!(if k { x } else { 3 }) } }
mod q6_0 { use super::{Str, Pair}; use laby::{frag_match};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag_match!(if k { x }) } }
mod q6_1 { use super::{Str, Pair}; use laby::{frag_match}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag classes bool iter iter_lines raw disp render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag_match!(if k { x }) } }
mod q6_2 { use super::{Str, Pair}; use laby::{frag_match}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag_match!(if k { x }) } }
mod q7_0 { use super::{Str, Pair}; use laby::{frag_match};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag_match!(if k { x } else if x.len() > 90 { 1u8 } else { "e" }) } }
mod q7_1 { use super::{Str, Pair}; use laby::{frag_match}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag classes bool iter iter_lines raw disp render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag_match!(if k { x } else if x.len() > 90 { 1u8 } else { "e" }) } }
mod q7_2 { use super::{Str, Pair}; use laby::{frag_match}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag_match!(if k { x } else if x.len() > 90 { 1u8 } else { "e" }) } }
mod q8_0 { use super::{Str, Pair}; use laby::{frag_match};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag_match!(match k { true => x, false => () }) } }
mod q8_1 { use super::{Str, Pair}; use laby::{frag_match}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag classes bool iter iter_lines raw disp render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag_match!(match k { true => x, false => () }) } }
mod q8_2 { use super::{Str, Pair}; use laby::{frag_match}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag_match!(match k { true => x, false => () }) } }
mod q9_0 { use super::{Str, Pair}; use laby::{frag_match};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag_match!(match (k, x) { (true, s) if s.len() < 90 => s, _ => 0 }) } }
mod q9_1 { use super::{Str, Pair}; use laby::{frag_match}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag classes bool iter iter_lines raw disp render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag_match!(match (k, x) { (true, s) if s.len() < 90 => s, _ => 0 }) } }
mod q9_2 { use super::{Str, Pair}; use laby::{frag_match}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { frag_match!(match (k, x) { (true, s) if s.len() < 90 => s, _ => 0 }) } }
mod q10_0 { use super::{Str, Pair}; use laby::{iter};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { iter!([x, x]) } }
mod q10_1 { use super::{Str, Pair}; use laby::{iter}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag frag_match classes bool iter_lines raw disp render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { iter!([x, x]) } }
mod q10_2 { use super::{Str, Pair}; use laby::{iter}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { iter!([x, x]) } }
mod q11_0 { use super::{Str, Pair}; use laby::{iter};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { iter!(", ", [x, "b"]) } }
mod q11_1 { use super::{Str, Pair}; use laby::{iter}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag frag_match classes bool iter_lines raw disp render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { iter!(", ", [x, "b"]) } }
mod q11_2 { use super::{Str, Pair}; use laby::{iter}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { iter!(", ", [x, "b"]) } }
mod q12_0 { use super::{Str, Pair}; use laby::{iter_lines};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { iter_lines!([x, "b"]) } }
mod q12_1 { use super::{Str, Pair}; use laby::{iter_lines}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag frag_match classes bool iter raw disp render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { iter_lines!([x, "b"]) } }
mod q12_2 { use super::{Str, Pair}; use laby::{iter_lines}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { iter_lines!([x, "b"]) } }
mod q13_0 { use super::{Str, Pair}; use laby::{raw};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { raw!(x) } }
mod q13_1 { use super::{Str, Pair}; use laby::{raw}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag frag_match classes bool iter iter_lines disp render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { raw!(x) } }
mod q13_2 { use super::{Str, Pair}; use laby::{raw}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { raw!(x) } }
mod q14_0 { use super::{Str, Pair}; use laby::{disp};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { disp!(x) } }
mod q14_1 { use super::{Str, Pair}; use laby::{disp}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag frag_match classes bool iter iter_lines raw render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { disp!(x) } }
mod q14_2 { use super::{Str, Pair}; use laby::{disp}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { disp!(x) } }
mod q15_0 { use super::{Str, Pair}; use laby::{render};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { ::laby::RenderRaw(render!(x)) } }
mod q15_1 { use super::{Str, Pair}; use laby::{render}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag frag_match classes bool iter iter_lines raw disp __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { ::laby::RenderRaw(render!(x)) } }
mod q15_2 { use super::{Str, Pair}; use laby::{render}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { ::laby::RenderRaw(render!(x)) } }
mod q16_0 { use super::{Str, Pair}; use laby::{render};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { ::laby::RenderRaw(render!(x, 5, x)) } }
mod q16_1 { use super::{Str, Pair}; use laby::{render}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag frag_match classes bool iter iter_lines raw disp __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { ::laby::RenderRaw(render!(x, 5, x)) } }
mod q16_2 { use super::{Str, Pair}; use laby::{render}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { ::laby::RenderRaw(render!(x, 5, x)) } }
mod q17_0 { use super::{Str, Pair}; use laby::{render};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { ::laby::RenderRaw(render!()) } }
mod q17_1 { use super::{Str, Pair}; use laby::{render}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag frag_match classes bool iter iter_lines raw disp __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { ::laby::RenderRaw(render!()) } }
mod q17_2 { use super::{Str, Pair}; use laby::{render}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { ::laby::RenderRaw(render!()) } }
mod q18_0 { use super::{Str, Pair}; use laby::{p, b};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { p!(b!(x), id = b!(1)) } }
mod q18_1 { use super::{Str, Pair}; use laby::{p, b}; poison29!{ a abbr address article aside audio bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag frag_match classes bool iter iter_lines raw disp render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { p!(b!(x), id = b!(1)) } }
mod q18_2 { use super::{Str, Pair}; use laby::{p, b}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { p!(b!(x), id = b!(1)) } }
mod q19_0 { use super::{Str, Pair}; use laby::{p, bool};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { p!(x, a = bool!(k), c = bool!(true), d = bool!(false)) } }
mod q19_1 { use super::{Str, Pair}; use laby::{p, bool}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object optgroup option output picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag frag_match classes iter iter_lines raw disp render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { p!(x, a = bool!(k), c = bool!(true), d = bool!(false)) } }
mod q19_2 { use super::{Str, Pair}; use laby::{p, bool}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { p!(x, a = bool!(k), c = bool!(true), d = bool!(false)) } }
mod q20_0 { use super::{Str, Pair}; use laby::{p, frag_match};   pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { p!(frag_match!(if k { x }), a = frag_match!(match k { true => 1, false => x })) } }
mod q20_1 { use super::{Str, Pair}; use laby::{p, frag_match}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag classes bool iter iter_lines raw disp render __laby_internal_call_fn_named }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { p!(frag_match!(if k { x }), a = frag_match!(match k { true => 1, false => x })) } }
mod q20_2 { use super::{Str, Pair}; use laby::{p, frag_match}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core }  pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { p!(frag_match!(if k { x }), a = frag_match!(match k { true => 1, false => x })) } }
mod q21_0 { use super::{Str, Pair}; use laby::{laby};  #[laby] fn cz(a: &'static Str, #[default("d")] z: &'static Str, #[rest] r: impl ::laby::Render) -> impl ::laby::Render { (a, z, Pair(r)).2 } pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { cz!(a = x, x, 7) } }
mod q21_1 { use super::{Str, Pair}; use laby::{laby}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag frag_match classes bool iter iter_lines raw disp render __laby_internal_call_fn_named } #[laby] fn cz(a: &'static Str, #[default("d")] z: &'static Str, #[rest] r: impl ::laby::Render) -> impl ::laby::Render { (a, z, Pair(r)).2 } pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { cz!(a = x, x, 7) } }
mod q21_2 { use super::{Str, Pair}; use laby::{laby}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core } #[laby] fn cz(a: &'static Str, #[default("d")] z: &'static Str, #[rest] r: impl ::laby::Render) -> impl ::laby::Render { (a, z, Pair(r)).2 } pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { cz!(a = x, x, 7) } }
mod q22_0 { use super::{Str, Pair}; use laby::{laby};  #[laby] fn cz(a: &'static Str, #[default] z: u8) -> impl ::laby::Render { Pair(a) } pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { cz!(a = x) } }
mod q22_1 { use super::{Str, Pair}; use laby::{laby}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag frag_match classes bool iter iter_lines raw disp render __laby_internal_call_fn_named } #[laby] fn cz(a: &'static Str, #[default] z: u8) -> impl ::laby::Render { Pair(a) } pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { cz!(a = x) } }
mod q22_2 { use super::{Str, Pair}; use laby::{laby}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core } #[laby] fn cz(a: &'static Str, #[default] z: u8) -> impl ::laby::Render { Pair(a) } pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { cz!(a = x) } }
mod q23_0 { use super::{Str, Pair}; use laby::{laby};  #[laby] fn cz(#[rest] r: impl ::laby::Render) -> impl ::laby::Render { r } pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { cz!() } }
mod q23_1 { use super::{Str, Pair}; use laby::{laby}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag frag_match classes bool iter iter_lines raw disp render __laby_internal_call_fn_named } #[laby] fn cz(#[rest] r: impl ::laby::Render) -> impl ::laby::Render { r } pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { cz!() } }
mod q23_2 { use super::{Str, Pair}; use laby::{laby}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core } #[laby] fn cz(#[rest] r: impl ::laby::Render) -> impl ::laby::Render { r } pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { cz!() } }
mod q24_0 { use super::{Str, Pair}; use laby::{laby};  #[laby] fn cz(#[rest(Pair)] r: Pair<&'static Str>) -> impl ::laby::Render { r } pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { cz!(x) } }
mod q24_1 { use super::{Str, Pair}; use laby::{laby}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag frag_match classes bool iter iter_lines raw disp render __laby_internal_call_fn_named } #[laby] fn cz(#[rest(Pair)] r: Pair<&'static Str>) -> impl ::laby::Render { r } pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { cz!(x) } }
mod q24_2 { use super::{Str, Pair}; use laby::{laby}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core } #[laby] fn cz(#[rest(Pair)] r: Pair<&'static Str>) -> impl ::laby::Render { r } pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { cz!(x) } }
mod q25_0 { use super::{Str, Pair}; use laby::{laby, p};  #[laby] fn cz(a: &'static Str, #[rest] r: impl ::laby::Render) -> impl ::laby::Render { p!(r, id = a) } pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { p!(cz!(x, a = x, 2), x) } }
mod q25_1 { use super::{Str, Pair}; use laby::{laby, p}; poison29!{ a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul video area base br col embed hr img input link meta param source track wbr frag frag_match classes bool iter iter_lines raw disp render __laby_internal_call_fn_named } #[laby] fn cz(a: &'static Str, #[rest] r: impl ::laby::Render) -> impl ::laby::Render { p!(r, id = a) } pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { p!(cz!(x, a = x, 2), x) } }
mod q25_2 { use super::{Str, Pair}; use laby::{laby, p}; poison29!{ vec format write writeln concat stringify format_args matches assert assert_eq debug_assert panic unreachable todo unimplemented include_str env cfg line file compile_error print println dbg const_format_args thread_local addr_of addr_of_mut ready pin call quote buffer t1 push_str internal core } #[laby] fn cz(a: &'static Str, #[rest] r: impl ::laby::Render) -> impl ::laby::Render { p!(r, id = a) } pub fn f(x: &'static Str, k: bool) -> impl ::laby::Render { p!(cz!(x, a = x, 2), x) } }
case! {
    h_29_q0_none(b) { let x = t(1); let k = bool_(); lit("<p a=\""); esc(x); lit("\" c=\"1\">"); esc(x); lit("k</p>"); end(b, q0_0::f(x, k)) }
    h_29_q0_poison(b) { let x = t(1); let k = bool_(); lit("<p a=\""); esc(x); lit("\" c=\"1\">"); esc(x); lit("k</p>"); end(b, q0_1::f(x, k)) }
    h_29_q0_std(b) { let x = t(1); let k = bool_(); lit("<p a=\""); esc(x); lit("\" c=\"1\">"); esc(x); lit("k</p>"); end(b, q0_2::f(x, k)) }
    h_29_q1_none(b) { let x = t(1); let k = bool_(); lit("<img src=\""); esc(x); lit("\" alt=\"q\">"); end(b, q1_0::f(x, k)) }
    h_29_q1_poison(b) { let x = t(1); let k = bool_(); lit("<img src=\""); esc(x); lit("\" alt=\"q\">"); end(b, q1_1::f(x, k)) }
    h_29_q1_std(b) { let x = t(1); let k = bool_(); lit("<img src=\""); esc(x); lit("\" alt=\"q\">"); end(b, q1_2::f(x, k)) }
    h_29_q2_none(b) { let x = t(1); let k = bool_(); esc(x); lit("1"); esc(x); lit("&lt;"); end(b, q2_0::f(x, k)) }
    h_29_q2_poison(b) { let x = t(1); let k = bool_(); esc(x); lit("1"); esc(x); lit("&lt;"); end(b, q2_1::f(x, k)) }
    h_29_q2_std(b) { let x = t(1); let k = bool_(); esc(x); lit("1"); esc(x); lit("&lt;"); end(b, q2_2::f(x, k)) }
    h_29_q3_none(b) { let x = t(1); let k = bool_();  end(b, q3_0::f(x, k)) }
    h_29_q3_poison(b) { let x = t(1); let k = bool_();  end(b, q3_1::f(x, k)) }
    h_29_q3_std(b) { let x = t(1); let k = bool_();  end(b, q3_2::f(x, k)) }
    h_29_q4_none(b) { let x = t(1); let k = bool_(); esc(x); lit(" b "); esc(x); end(b, q4_0::f(x, k)) }
    h_29_q4_poison(b) { let x = t(1); let k = bool_(); esc(x); lit(" b "); esc(x); end(b, q4_1::f(x, k)) }
    h_29_q4_std(b) { let x = t(1); let k = bool_(); esc(x); lit(" b "); esc(x); end(b, q4_2::f(x, k)) }
    h_29_q5_none(b) { let x = t(1); let k = bool_(); if k { esc(x); } else { lit("3"); } end(b, q5_0::f(x, k)) }
    h_29_q5_poison(b) { let x = t(1); let k = bool_(); if k { esc(x); } else { lit("3"); } end(b, q5_1::f(x, k)) }
    h_29_q5_std(b) { let x = t(1); let k = bool_(); if k { esc(x); } else { lit("3"); } end(b, q5_2::f(x, k)) }
    h_29_q6_none(b) { let x = t(1); let k = bool_(); if k { esc(x); } end(b, q6_0::f(x, k)) }
    h_29_q6_poison(b) { let x = t(1); let k = bool_(); if k { esc(x); } end(b, q6_1::f(x, k)) }
    h_29_q6_std(b) { let x = t(1); let k = bool_(); if k { esc(x); } end(b, q6_2::f(x, k)) }
    h_29_q7_none(b) { let x = t(1); let k = bool_(); if k { esc(x); } else { lit("e"); } end(b, q7_0::f(x, k)) }
    h_29_q7_poison(b) { let x = t(1); let k = bool_(); if k { esc(x); } else { lit("e"); } end(b, q7_1::f(x, k)) }
    h_29_q7_std(b) { let x = t(1); let k = bool_(); if k { esc(x); } else { lit("e"); } end(b, q7_2::f(x, k)) }
    h_29_q8_none(b) { let x = t(1); let k = bool_(); if k { esc(x); } end(b, q8_0::f(x, k)) }
    h_29_q8_poison(b) { let x = t(1); let k = bool_(); if k { esc(x); } end(b, q8_1::f(x, k)) }
    h_29_q8_std(b) { let x = t(1); let k = bool_(); if k { esc(x); } end(b, q8_2::f(x, k)) }
    h_29_q9_none(b) { let x = t(1); let k = bool_(); if k { esc(x); } else { lit("0"); } end(b, q9_0::f(x, k)) }
    h_29_q9_poison(b) { let x = t(1); let k = bool_(); if k { esc(x); } else { lit("0"); } end(b, q9_1::f(x, k)) }
    h_29_q9_std(b) { let x = t(1); let k = bool_(); if k { esc(x); } else { lit("0"); } end(b, q9_2::f(x, k)) }
    h_29_q10_none(b) { let x = t(1); let k = bool_(); esc(x); esc(x); end(b, q10_0::f(x, k)) }
    h_29_q10_poison(b) { let x = t(1); let k = bool_(); esc(x); esc(x); end(b, q10_1::f(x, k)) }
    h_29_q10_std(b) { let x = t(1); let k = bool_(); esc(x); esc(x); end(b, q10_2::f(x, k)) }
    h_29_q11_none(b) { let x = t(1); let k = bool_(); esc(x); lit(", b"); end(b, q11_0::f(x, k)) }
    h_29_q11_poison(b) { let x = t(1); let k = bool_(); esc(x); lit(", b"); end(b, q11_1::f(x, k)) }
    h_29_q11_std(b) { let x = t(1); let k = bool_(); esc(x); lit(", b"); end(b, q11_2::f(x, k)) }
    h_29_q12_none(b) { let x = t(1); let k = bool_(); esc(x); lit("\nb"); end(b, q12_0::f(x, k)) }
    h_29_q12_poison(b) { let x = t(1); let k = bool_(); esc(x); lit("\nb"); end(b, q12_1::f(x, k)) }
    h_29_q12_std(b) { let x = t(1); let k = bool_(); esc(x); lit("\nb"); end(b, q12_2::f(x, k)) }
    h_29_q13_none(b) { let x = t(1); let k = bool_(); lit(x); end(b, q13_0::f(x, k)) }
    h_29_q13_poison(b) { let x = t(1); let k = bool_(); lit(x); end(b, q13_1::f(x, k)) }
    h_29_q13_std(b) { let x = t(1); let k = bool_(); lit(x); end(b, q13_2::f(x, k)) }
    h_29_q14_none(b) { let x = t(1); let k = bool_(); esc(x); end(b, q14_0::f(x, k)) }
    h_29_q14_poison(b) { let x = t(1); let k = bool_(); esc(x); end(b, q14_1::f(x, k)) }
    h_29_q14_std(b) { let x = t(1); let k = bool_(); esc(x); end(b, q14_2::f(x, k)) }
    h_29_q15_none(b) { let x = t(1); let k = bool_(); esc(x); end(b, q15_0::f(x, k)) }
    h_29_q15_poison(b) { let x = t(1); let k = bool_(); esc(x); end(b, q15_1::f(x, k)) }
    h_29_q15_std(b) { let x = t(1); let k = bool_(); esc(x); end(b, q15_2::f(x, k)) }
    h_29_q16_none(b) { let x = t(1); let k = bool_(); esc(x); lit("5"); esc(x); end(b, q16_0::f(x, k)) }
    h_29_q16_poison(b) { let x = t(1); let k = bool_(); esc(x); lit("5"); esc(x); end(b, q16_1::f(x, k)) }
    h_29_q16_std(b) { let x = t(1); let k = bool_(); esc(x); lit("5"); esc(x); end(b, q16_2::f(x, k)) }
    h_29_q17_none(b) { let x = t(1); let k = bool_();  end(b, q17_0::f(x, k)) }
    h_29_q17_poison(b) { let x = t(1); let k = bool_();  end(b, q17_1::f(x, k)) }
    h_29_q17_std(b) { let x = t(1); let k = bool_();  end(b, q17_2::f(x, k)) }
    h_29_q18_none(b) { let x = t(1); let k = bool_(); lit("<p id=\"<b>1</b>\"><b>"); esc(x); lit("</b></p>"); end(b, q18_0::f(x, k)) }
    h_29_q18_poison(b) { let x = t(1); let k = bool_(); lit("<p id=\"<b>1</b>\"><b>"); esc(x); lit("</b></p>"); end(b, q18_1::f(x, k)) }
    h_29_q18_std(b) { let x = t(1); let k = bool_(); lit("<p id=\"<b>1</b>\"><b>"); esc(x); lit("</b></p>"); end(b, q18_2::f(x, k)) }
    h_29_q19_none(b) { let x = t(1); let k = bool_(); lit("<p"); if k { lit(" a"); } lit(" c>"); esc(x); lit("</p>"); end(b, q19_0::f(x, k)) }
    h_29_q19_poison(b) { let x = t(1); let k = bool_(); lit("<p"); if k { lit(" a"); } lit(" c>"); esc(x); lit("</p>"); end(b, q19_1::f(x, k)) }
    h_29_q19_std(b) { let x = t(1); let k = bool_(); lit("<p"); if k { lit(" a"); } lit(" c>"); esc(x); lit("</p>"); end(b, q19_2::f(x, k)) }
    h_29_q20_none(b) { let x = t(1); let k = bool_(); lit("<p a=\""); if k { lit("1"); } else { esc(x); } lit("\">"); if k { esc(x); } lit("</p>"); end(b, q20_0::f(x, k)) }
    h_29_q20_poison(b) { let x = t(1); let k = bool_(); lit("<p a=\""); if k { lit("1"); } else { esc(x); } lit("\">"); if k { esc(x); } lit("</p>"); end(b, q20_1::f(x, k)) }
    h_29_q20_std(b) { let x = t(1); let k = bool_(); lit("<p a=\""); if k { lit("1"); } else { esc(x); } lit("\">"); if k { esc(x); } lit("</p>"); end(b, q20_2::f(x, k)) }
    h_29_q21_none(b) { let x = t(1); let k = bool_(); esc(x); lit("7"); end(b, q21_0::f(x, k)) }
    h_29_q21_poison(b) { let x = t(1); let k = bool_(); esc(x); lit("7"); end(b, q21_1::f(x, k)) }
    h_29_q21_std(b) { let x = t(1); let k = bool_(); esc(x); lit("7"); end(b, q21_2::f(x, k)) }
    h_29_q22_none(b) { let x = t(1); let k = bool_(); esc(x); end(b, q22_0::f(x, k)) }
    h_29_q22_poison(b) { let x = t(1); let k = bool_(); esc(x); end(b, q22_1::f(x, k)) }
    h_29_q22_std(b) { let x = t(1); let k = bool_(); esc(x); end(b, q22_2::f(x, k)) }
    h_29_q23_none(b) { let x = t(1); let k = bool_();  end(b, q23_0::f(x, k)) }
    h_29_q23_poison(b) { let x = t(1); let k = bool_();  end(b, q23_1::f(x, k)) }
    h_29_q23_std(b) { let x = t(1); let k = bool_();  end(b, q23_2::f(x, k)) }
    h_29_q24_none(b) { let x = t(1); let k = bool_(); esc(x); end(b, q24_0::f(x, k)) }
    h_29_q24_poison(b) { let x = t(1); let k = bool_(); esc(x); end(b, q24_1::f(x, k)) }
    h_29_q24_std(b) { let x = t(1); let k = bool_(); esc(x); end(b, q24_2::f(x, k)) }
    h_29_q25_none(b) { let x = t(1); let k = bool_(); lit("<p><p id=\""); esc(x); lit("\">"); esc(x); lit("2</p>"); esc(x); lit("</p>"); end(b, q25_0::f(x, k)) }
    h_29_q25_poison(b) { let x = t(1); let k = bool_(); lit("<p><p id=\""); esc(x); lit("\">"); esc(x); lit("2</p>"); esc(x); lit("</p>"); end(b, q25_1::f(x, k)) }
    h_29_q25_std(b) { let x = t(1); let k = bool_(); lit("<p><p id=\""); esc(x); lit("\">"); esc(x); lit("2</p>"); esc(x); lit("</p>"); end(b, q25_2::f(x, k)) }
}
