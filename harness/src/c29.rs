//! user code that uses the names the expansions use
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{string::String, format, vec};
// functions
fn t1(v: &'static str) -> &'static str { v }
fn t2() -> u8 { 2 }
fn t9(t1: &'static str) -> impl Render { b!(t1, a = t1) }
fn buffer(v: &'static str) -> impl Render { i!(v) }
fn item(item: &'static str) -> impl Render { li!(item) }
fn push_str(v: &'static str) -> String { format!("{}!", v) }
fn escape_str(v: &'static str) -> &'static str { v }
fn into_string(v: u8) -> u8 { v.wrapping_add(1) }
fn with_capacity() -> &'static str { "w" }
fn div() -> &'static str { "div" }
fn p_() -> &'static str { "p" }
// types
struct Buffer0;
mod own { pub struct Buffer(pub &'static str); pub struct T1(pub u8); pub trait Render { fn render(&self) -> &'static str; fn push_str(&self) -> u8 { 7 } } impl Render for Buffer { fn render(&self) -> &'static str { self.0 } } impl Render for u8 { fn render(&self) -> &'static str { "u8" } } pub struct Display; pub struct String; pub struct Vec; }
struct T2(&'static str);
impl laby::Render for T2 { fn render(self, buffer: &mut laby::internal::Buffer) { self.0.render(buffer) } }
struct Page { t1: &'static str, buffer: u8, render: &'static str }
impl Page {
    fn it<'a>(&'a self) -> impl Render + 'a { div!(self.t1, id = self.buffer, class = self.render, iter!(",", [self.t1, self.render])) }
    fn eaten(self) -> impl Render { div!(self.t1, self.render, p!(self.buffer, frag_match!(if self.buffer > 4 { self.t1 } else { self.render }))) }
    fn render(&self) -> &'static str { self.t1 }
}
fn generic<T1: Render, T2: Render, T3: Render>(t1: T1, t2: T2, buffer: T3) -> impl Render { div!(t1, t2, buffer, id = 1) }
fn generic_named<T: Render, U, I>(item: T, iter: I, del: U) -> impl Render where U: AsRef<str>, I: IntoIterator, I::Item: Render { p!(item, iter!(del, iter)) }
#[laby] fn comp(buffer: &'static str, t1: &'static str, #[default("d")] t2: &'static str, #[rest] buf: impl Render) -> impl Render { div!(id = buffer, class = t2, t1, buf) }
#[laby] fn args(args: &'static str, x: u8, call: &'static str, sig: &'static str) -> impl Render { p!(args, x, call, sig) }
#[laby] fn call(value: &'static str, name: u8) -> impl Render { p!(value, name) }
#[laby] fn frag_(frag: &'static str, item: impl Render, iter: &'static str, #[default(frag_default())] del: &'static str) -> impl Render { frag!(frag, item, iter, del) }
fn frag_default() -> &'static str { "fd" }
#[laby] fn params<T1: Render, T: Render>(t: T, t1: T1) -> impl Render { frag!(t, t1) }
#[laby] fn same(same: &'static str) -> impl Render { b!(same) }
#[laby] fn f1(f1: &'static str, #[default] func: u8, #[rest] rest: impl Render) -> impl Render { frag!(f1, func, rest) }
#[laby] fn tagged(div: &'static str, p: &'static str, class: u8) -> impl Render { div!(p!(p, class = class), div) }
/// nothing imported but the macros, and everything else called something else
mod bare {
    use laby::{b, bool, br, classes, div, frag, frag_match, i, iter, iter_lines, p, raw, disp, render, laby};
    mod core { } mod std { } mod alloc { }
    struct Render; struct Buffer; struct Option; struct String; struct Vec; struct Default; struct Iterator; struct IntoIterator; struct AsRef; struct Display; struct RenderRaw; struct RenderIterator; struct Frag; struct Literal; struct Result;
    #[allow(non_camel_case_types)] struct bool; #[allow(non_camel_case_types)] struct str; #[allow(non_camel_case_types)] struct char; #[allow(non_camel_case_types)] struct usize;
    #[allow(non_snake_case)] pub fn Some(s: &'static crate::c29::Str) -> u8 { s.len() as u8 }
    #[allow(non_snake_case)] pub fn Ok(s: u8) -> u8 { s + 1 }
    #[allow(non_upper_case_globals)] pub const None: u8 = 9;
    pub fn drop(n: u8) -> u8 { n + 2 }
    macro_rules! vec { ($($t:tt)*) => { 4 } }
    macro_rules! format { ($($t:tt)*) => { 5 } }
    macro_rules! write { ($($t:tt)*) => { 6 } }
    pub fn all(x: &'static crate::c29::Str, k: ::core::primitive::bool) -> impl laby::Render {
        div!(p!(x, Some(x), Ok(3), a = None, b = bool!(k), class = classes!(x, "k", None)), frag!(drop(1), raw!("<")), iter!(",", [x, "i"]), iter_lines!([1, 2]), disp!(x), br!(), vec!(), format!(), write!())
    }
    pub fn by(x: &'static crate::c29::Str, k: ::core::primitive::bool) -> impl laby::Render { i!(frag_match!(if k { b!(x) } else { None }), frag_match!(match k { true => Some(x), false => div!() })) }
    pub fn text(x: &'static crate::c29::Str) -> impl laby::Render { let s = render!(b!(x), None); raw!(s) }
    #[laby] fn comp(#[default(7)] a: u8, #[default] b: u8, #[rest] r: impl laby::Render) -> impl laby::Render { p!(a, b, r) }
    pub fn comps(x: &'static crate::c29::Str) -> impl laby::Render { div!(comp!(), comp!(x, None, b = Some(x), a = 1)) }
}
type Str = str;
mod maybe { pub enum Maybe { Some, None } }
case! {
    h_29_bare(b) { let x = t(1); let k = bool_(); w!["<div><p a=\"9\""]; if k { lit(" b") } w![" class=\"", [x], " k 9\">", [x], "14</p>3<", [x], ",i1\n2", [x], "<br>456</div>"]; end(b, bare::all(x, k)) }
    h_29_bare_match(b) { let x = t(1); let k = bool_(); if k { w!["<i><b>", [x], "</b>1</i>"] } else { w!["<i>9<div></div></i>"] } end(b, bare::by(x, k)) }
    h_29_bare_render(b) { let x = t(1); w!["<b>", [x], "</b>9"]; end(b, bare::text(x)) }
    h_29_bare_component(b) { let x = t(1); w!["<div><p>70</p><p>11", [x], "9</p></div>"]; end(b, bare::comps(x)) }
    h_29_maybe(b) { use maybe::Maybe::{self, *}; let x = t(1); let k = bool_(); let m: Maybe = if k { Some } else { None }; if k { esc(x) } else { lit("n") } lit("-"); if k { lit("s") } end(b, frag!(frag_match!(match m { Some => x, None => "n" }), "-", frag_match!(if let Some = m { "s" }))) }
    h_29_locals(b) { let t1 = t(1); let t2 = t(1); let t3 = t(1); let buffer = u8_(); w!["<p id=\"", [t3], "\" t1=\"", [t2], "\">", [t1], "<b>", [t2], "</b>"]; lit_dec(buffer as u32); w!["</p>"]; end(b, p!(t1, b!(t2), buffer, id = t3, t1 = t2)) }
    h_29_rotated(b) { let t1 = t(1); let t2 = t(1); let t3 = t(1); let t4 = t(1); w!["<p a=\"", [t3], "\">", [t4], [t2], [t1], "</p>"]; end(b, p!(t4, a = t3, t2, t1)) }
    h_29_swapped_frag(b) { let t1 = t(1); let t2 = t(1); w![[t2], [t1], [t2], "-", [t1]]; end(b, frag!(t2, t1, frag!(t2, "-", t1))) }
    h_29_nested(b) { let t1 = t(1); let t2 = t(1); let buffer = t(1); w!["<div>", [t2], "<p a=\"", [buffer], "\">", [t1], "<b>", [buffer], [t2], "</b></p>", [t1], "</div>"]; end(b, div!(t2, p!(t1, b!(buffer, t2), a = buffer), t1)) }
    h_29_nested_vars(b) { let t1 = t(1); let t2 = b!(t1, a = "k"); let t3 = p!(t1, t2); let buffer = div!(t3, t1); w!["<div><p>", [t1], "<b a=\"k\">", [t1], "</b></p>", [t1], "</div>"]; end(b, buffer) }
    h_29_functions(b) { let x = t(1); w!["<p a=\"2\" b=\"w\">", [x], "<i>", [x], "</i><b a=\"", [x], "\">", [x], "</b>", [x], "!", [x], "</p>"]; end(b, p!(t1(x), buffer(x), t9(x), push_str(x), escape_str(x), a = t2(), b = with_capacity())) }
    h_29_function_iter(b) { let x = t(1); w!["<ul><li>", [x], "</li>,<li>k</li></ul>"]; end(b, ul!(iter!(",", [x, "k"].iter().copied().map(item)))) }
    h_29_closures(b) { let x = t(1); let t1 = |v: &'static str| u!(v); let buffer = |n: u8| n; let render = || "r"; w!["<p a=\"3\"><u>", [x], "</u>7r</p>"]; end(b, p!(t1(x), buffer(7), render(), a = buffer(3))) }
    h_29_shadowing(b) { let x = t(1); let y = t(1); w!["<p>", [x], [y], [x], "</p>"]; let t1 = y; let e = p!({ let t1 = x; t1 }, t1, { let buffer = x; buffer }); end(b, e) }
    h_29_blocks(b) { let t1 = t(1); w!["<p a=\"", [t1], "\">", [t1], "<b>", [t1], "</b></p>"]; end(b, p!({ let t2 = t1; t2 }, a = { let t1 = t1; t1 }, b!({ let t3 = t1; let buffer = t3; buffer }))) }
    h_29_fields(b) { let x = t(1); let t1 = Page { t1: x, buffer: 5, render: "r" }; w!["<p a=\"5\">", [x], "r</p>"]; end(b, p!(t1.t1, t1.render, a = t1.buffer)) }
    h_29_method(b) { let x = t(1); let q = Page { t1: x, buffer: 5, render: "r" }; w!["<div id=\"5\" class=\"r\">", [x], [x], ",r</div>"]; end(b, q.it()) }
    h_29_method_self(b) { let x = t(1); let n = u8_(); let q = Page { t1: x, buffer: n, render: "r" }; w!["<div>", [x], "r<p>"]; lit_dec(n as u32); if n > 4 { esc(x) } else { lit("r") } w!["</p></div>"]; end(b, q.eaten()) }
    h_29_method_render(b) { let x = t(1); let q = Page { t1: x, buffer: 5, render: "r" }; w!["<p>", [x], "</p>"]; end(b, p!(q.render())) }
    h_29_other_types(b) { let x = t(1); use own::{Buffer, T1}; let buffer = Buffer(x); let t1 = T1(4); w!["<p a=\"4\">", [x], "u8", "7", "</p>"]; end(b, p!(own::Render::render(&buffer), own::Render::render(&1u8), own::Render::push_str(&buffer), a = t1.0)) }
    h_29_type_t2(b) { let x = t(1); let t2 = T2(x); w!["<p a=\"", [x], "\">", [x], "</p>"]; end(b, p!(T2(x), a = t2)) }
    h_29_generics(b) { let x = t(1); w!["<div id=\"1\">", [x], "1<b>", [x], "</b></div>"]; end(b, generic(x, 1, b!(x))) }
    h_29_generics_iter(b) { let x = t(1); w!["<p>", [x], [x], "+k</p>"]; end(b, generic_named(x, [x, "k"], "+")) }
    h_29_iter_locals(b) { let iter = [t(1), "z"]; let item = t(1); let del = ";"; w!["<p>", [iter[0]], ";z", [item], "</p>"]; end(b, p!(iter!(del, iter), item)) }
    h_29_iter_lazy(b) { let item = t(1); let del = t(1); let buf = t(1); w![[item], [del], (del), [buf], [del]]; let e = iter!(del, [item, buf].into_iter().map(|iter| frag!(iter, del))); end(b, e) }
    h_29_iter_self(b) { let buf = t(1); let iter = vec![t(1)]; w!["<p>", [iter[0]], [buf], "</p>"]; let raw = raw!(""); end(b, p!(iter!(iter.clone()), buf, raw)) }
    h_29_classes(b) { let t1 = t(1); let t2 = t(1); let buffer = t(1); w!["<p class=\"", [buffer], " ", [t2], " ", [t1], "\"></p>"]; end(b, p!(class = classes!(buffer, t2, t1))) }
    h_29_bools(b) { let t1 = bool_(); let t2 = bool_(); let buffer = bool_(); w!["<p"]; if buffer { lit(" t1") } if t2 { lit(" t2") } if t1 { lit(" buffer") } w!["></p>"]; end(b, p!(t1 = bool!(buffer), t2 = bool!(t2), buffer = bool!(t1))) }
    h_29_bool_names(b) { let t1 = t(1); let t2 = bool_(); w!["<p"]; if t2 { lit(" "); esc(t1) } w![" ", [t1], ">", [t1], "</p>"]; end(b, p!({ t1 } = bool!(t2), { t1 } = bool!(true), t1)) }
    h_29_names(b) { let t1 = t(1); let t2 = t(1); let buffer = t(1); w!["<p ", [t2], "=\"", [t1], "\" t2=\"", [buffer], "\" ", [buffer], "=\"", [t2], "\"></p>"]; end(b, p!({ t2 } = t1, t2 = buffer, { buffer } = t2)) }
    h_29_match(b) { let t1 = choose(4); let buffer = t(1); let t2 = t(1); w!["<p>"]; match t1 { 0 => w![[buffer]], 1 => w!["<b>", [t2], "</b>"], 2 => w!["2"], _ => {} } w!["</p>"]; end(b, p!(frag_match!(match t1 { 0 => buffer, 1 => b!(t2), t3 if t3 == 2 => t3, _ => () }))) }
    h_29_match_binding(b) { let x = t(1); let k = bool_(); let v = if k { Some(x) } else { None }; w!["<p>"]; if k { esc(x) } else { lit("none") } w!["</p>"]; end(b, p!(frag_match!(match v { Some(t1) => t1, None => "none" }))) }
    h_29_match_nested(b) { let t1 = bool_(); let t2 = bool_(); let buffer = t(1); if t1 { if t2 { esc(buffer) } else { lit("a") } } else { lit("<b>"); if t2 { lit("1") } lit("</b>") } end(b, frag_match!(if t1 { frag_match!(if t2 { buffer } else { "a" }) } else { b!(frag_match!(match t2 { true => 1, false => () })) })) }
    h_29_if_let(b) { let k = bool_(); let x = t(1); let t2 = if k { Some(x) } else { None }; if k { esc(x) } else { lit("<i>"); esc(x); lit("</i>") } end(b, frag_match!(if let Some(buffer) = t2 { buffer } else { let t1 = x; i!(t1) })) }
    h_29_variant_names(b) { let variant_1 = t(1); let variants = t(1); let k = bool_(); esc(if k { variant_1 } else { variants }); end(b, frag_match!(if k { variant_1 } else { variants })) }
    h_29_component(b) { let t1 = t(1); let buffer = t(1); let buf = t(1); w!["<div id=\"", [t1], "\" class=\"", [buf], "\">", [buffer], [buf], [t1], "</div>"]; end(b, comp!(buf, t1, t1 = buffer, buffer = t1, t2 = buf)) }
    h_29_component_same(b) { let t1 = t(1); let buffer = t(1); w!["<div id=\"", [buffer], "\" class=\"d\">", [t1], "</div>"]; end(b, comp!(t1 = t1, buffer = buffer)) }
    h_29_component_args(b) { let args = t(1); let x = u8_(); let call = t(1); let sig = t(1); w!["<p>", [sig]]; lit_dec(x as u32); w![[args], [call], "</p>"]; end(b, args!(sig = call, x = x, call = args, args = sig)) }
    h_29_component_call(b) { let value = t(1); w!["<p>", [value], "3</p>"]; end(b, call!(name = 3, value = value)) }
    h_29_component_frag(b) { let frag = t(1); let iter = t(1); let item = t(1); w![[iter], "<b>", [frag], "</b>", [item], "fd"]; end(b, frag_!(iter = item, item = b!(frag), frag = iter)) }
    h_29_component_generic(b) { let t1 = t(1); let t = u8_(); lit_dec(t as u32); w![[t1]]; end(b, params!(t1 = t1, t = t)) }
    h_29_component_same_name(b) { let same = t(1); w!["<b>", [same], "</b>"]; end(b, same!(same = same)) }
    h_29_component_rest(b) { let rest = t(1); let func = u8_(); let f1 = t(1); w![[rest]]; lit_dec(func as u32); w![[f1], [rest]]; end(b, f1!(f1 = rest, f1, func = func, rest)) }
    h_29_component_tags(b) { let div = t(1); let p = t(1); let class = u8_(); w!["<div><p class=\""]; lit_dec(class as u32); w!["\">", [div], "</p>", [p], "</div>"]; end(b, tagged!(p = div, div = p, class = class)) }
    h_29_tag_names(b) { let div = t(1); let p = t(1); let b_ = t(1); let a = t(1); let class = t(1); w!["<div class=\"", [class], "\"><p a=\"", [a], "\">", [p], "</p>", [div], "</div>"]; end(b, div!(p!(p, a = a), div, class = class)) }
    h_29_tag_functions(b) { w!["<p>divp</p>"]; end(b, p!(div(), p_())) }
    h_29_local_items(b) { fn t2() -> &'static str { "local" } struct T1(u8); enum T3 { A } let x = T1(u8_()); w!["<p>local"]; lit_dec(x.0 as u32); w!["A</p>"]; end(b, p!(t2(), x.0, match T3::A { T3::A => "A" })) }
    h_29_local_macros(b) { macro_rules! t1 { ($e:expr) => { $e } } macro_rules! buffer { () => { "m" } } let x = t(1); w!["<p>", [x], "m</p>"]; end(b, p!(t1!(x), buffer!())) }
    h_29_in_macros(b) { macro_rules! row { ($t1:expr, $buffer:expr) => { tr!(td!($t1), td!($buffer)) } } macro_rules! with { ($n:ident) => { { let $n = t(1); esc($n); lit("</b>"); b!($n) } } } let t1 = t(1); w!["<tr><td>", [t1], "</td><td>1</td></tr><b>"]; let r = row!(t1, 1); end(b, frag!(r, with!(buffer))) }
    h_29_loops(b) { let x = t(1); w!["<p>", [x], "</p>"]; let e = 'buffer: loop { break 'buffer p!(if x.len() > 50 { continue 'buffer } else { x }) }; end(b, e) }
    h_29_patterns(b) { let (t1, [t2, buffer]) = (t(1), [t(1), "p"]); w!["<p a=\"", [t1], "\">p", [t2], "</p>"]; end(b, p!(buffer, t2, a = t1)) }
    h_29_mut(b) { let mut t1 = u8_(); let n = t1; let mut buffer = 0; lit_dec(n.wrapping_add(1) as u32); lit("1"); let e = frag!({ t1 = t1.wrapping_add(1); t1 }, { buffer += 1; buffer }); end(b, e) }
    h_29_raw_names(b) { let r#type = t(1); let r#fn = t(1); w!["<p type=\"", [r#type], "\">", [r#fn], "</p>"]; end(b, p!(r#fn, r#type = r#type)) }
    h_29_long(b) { let t1 = t(1); let t10 = t(1); let t12 = "x"; let t11 = "y"; w!["<p>", [t12], "1", [t11], "2", [t10], "3", [t1], "4y5x", "</p>"]; let (c1, c2, c3, c4, c5) = (1, 2, 3, 4, 5); end(b, p!(t12, c1, t11, c2, t10, c3, t1, c4, t11, c5, t12)) }
    h_29_format(b) { let t1 = t(1); let buffer = u8_(); w!["<p a=\"", [t1], "\">", [t1], "="]; lit_dec(buffer as u32); w!["</p>"]; end(b, p!(format_args!("{t1}={buffer}"), a = format!("{t1}"))) }
    h_29_no_imports(b) { let x = t(1); mod m { pub fn f(t1: &'static str) -> impl laby::Render { laby::div!(laby::p!(t1), laby::raw!("<"), laby::iter!([t1]), laby::classes!(t1, "k"), laby::frag_match!(if t1.len() > 0 { t1 } else { 0 }), id = t1) } } w!["<div id=\"", [x], "\"><p>", [x], "</p><", [x], [x], " k", [x], "</div>"]; end(b, m::f(x)) }
}
/// render! with its own names
#[no_mangle] pub fn h_29_render() { { let buf = t(1); let frag = t(1); let s = render!(buf); w![[buf]]; check_str(&s, 1); spec_reset(); let s = render!(frag, buf, p!(frag)); w![[frag], [buf], "<p>", [frag], "</p>"]; check_str(&s, 1); } check(live() == 0, 2) }
#[no_mangle] pub fn h_29_render_into() { { let mut buffer = laby::internal::Buffer::new(); let t1 = t(1); let len = buffer.len(); w!["<p>0", [t1], "</p>"]; p!(len, t1).render(&mut buffer); check_str(buffer.as_str(), 1); } check(live() == 0, 2) }
