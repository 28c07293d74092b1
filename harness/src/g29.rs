//! templates over variables with the names that expansions use (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{string::String, format, vec, vec::Vec};
fn idf<T>(v: T) -> T { v }
fn idb(v: bool) -> bool { v }
unsafe fn idu<T>(v: T) -> T { v }
struct S0s { f: &'static str }
static S0: S0s = S0s { f: "f0" };
impl S0s { fn m<T>(&self, v: T) -> T { v } }
struct P0<A, B> { a: A, b: B }
struct W0<T>(T);
impl<T: Render> Render for W0<T> { fn render(self, buffer: &mut Buffer) { self.0.render(buffer) } }
const K7: u8 = 7;
mod mk { pub const SEV: u8 = 7; }
const NM: [&str; 2] = ["n0", "n1"];
fn nm(s: &'static str) -> &'static str { s }
#[allow(non_upper_case_globals)] const id0: &str = "data-id0";
macro_rules! idm { ($e:expr) => { $e } }
macro_rules! const0 { ($e:expr) => {{ const C0: &str = $e; C0 }} }
#[laby] fn cmp0(#[rest] r: impl Render) -> impl Render { section!(r) }
#[laby] fn cmp1(a: impl Render, #[default("dflt")] b: impl Render) -> impl Render { frag!("{", a, "|", b, "}") }
#[laby] fn cmp2(title: impl Render, #[rest] body: impl Render) -> impl Render { frag!(h1!(title), body) }
case! {
    h_29_g000(b) { let out_ = b; let len = t(1); let buffer = t(1); let t7 = u8_(); let bool = bool_(); lit_dec(t7 as u32); lit("<details @click=\"{{}}a&amp;b&lt;c&gt;d&quot;e&#39;f"); if bool { esc(len); } else { esc(buffer); } lit("\">"); lit(if bool && bool { "true" } else { "false" }); lit("</details>"); esc(buffer); end(out_, frag![S0.m(t7), classes!{}, details!((bool && bool), "@click" = frag!{"{{}}", ({ ("a&b<c>d\"e'f") }), if { bool } { len } else { buffer }}), *&buffer]) }
    h_29_g001(b) { let out_ = b; let t4 = t(1); let variant_1 = t(1); let bool = u8_(); let b = bool_(); let buffer = bool_(); lit("<dt "); esc(t4); lit("=\""); lit_dec(bool as u32); lit("\">"); if b { esc(t4); } lit("<article _u=\"\" href=\"<area p=\""); lit(variant_1); lit("\">\" yield=\""); esc(variant_1); lit("\">["); esc(t4); lit("]</article><colgroup><wbr><hr><input title=\"3\"></colgroup>{"); esc(variant_1); lit("  "); esc(variant_1); lit("|"); lit(if b { "true" } else { "false" }); lit("}</dt>"); end(out_, dt!{frag_match!(if S0.m(b) { t4 }), article!{_u = frag![], format_args!("[{}]", t4), href = area!{p = raw!(variant_1), frag = bool!({ false })}, r#yield = [variant_1, "other"][0]}, { let q = t4; q } = { bool }, colgroup!{wbr!(), hr!{{ let q = t4; q } = bool!({ false })}, input!(title = [1, 2, 3].len())}, cmp1!(b = !!b, a = classes!(loop { break (variant_1) }, frag! {}, variant_1))}) }
    h_29_g002(b) { let out_ = b; let Render = t(1); let r#fn = t(1); let t7 = bool_(); let buffer = bool_(); lit("<output t1=\"\" "); esc(Render); lit("=\""); esc(Render); lit("\" "); esc(Render); lit("=\""); esc(Render); lit("\">"); if t7 { lit("<embed aria-label=\""); esc(Render); lit("\" "); esc(r#fn); lit("=\""); lit(if t7 { "true" } else { "false" }); lit("\">"); } lit("</output>"); end(out_, output![t1 = frag!(), (Render, 1).0 = (idf(Render)), frag_match!(if idb(t7) { embed!("aria-label" = Render, (r#fn, 1).0 = classes![idb(t7)], "data-x" = bool!(({ (false) })),) }), frag![], idm!(Render) = (|| Render)()]) }
    h_29_g003(b) { let out_ = b; let html = t(1); let laby = u8_(); let elem = bool_(); if elem { lit("<body"); if elem { lit(" "); esc(html); } lit(" "); esc(html); lit("=\"``\" :bind>"); if laby == 0 { lit(html); } else if laby < 10 {  } else { lit("many"); } lit("</body>"); } esc(html); lit("["); esc(html); lit("]44"); end(out_, frag![if !!elem { Some(body!({ { html } } = bool!(elem), { html } = concat!("``", ""), frag_match!(match laby { 0 => laby::raw!(html), 1..=9 => classes!(), _ => "many" }), ":bind" = bool!((true)))) } else { None }, Some(html), format_args!("[{}]", html), 300i32 as u8,]) }
    h_29_g004(b) { let out_ = b; let push_str = t(1); let t1 = t(1); let del = u8_(); let t5 = bool_(); let t4 = bool_(); lit("<picture><dt><base><br onclick=\""); esc(push_str); lit("\" x=\""); if t5 { esc(push_str); } else { esc(push_str); } if del == 7 || t5 { esc(push_str); } else { esc(t1); } lit(" ["); esc(t1); lit("]\" "); esc(t1); lit("=\""); if t5 { esc(push_str); } lit("\">"); lit(push_str); lit("</dt></picture>"); end(out_, picture!(dt!(base!(), br!(onclick = push_str, x = classes!(iter!([match t5 { true => push_str, false => push_str }, if del == 7 || t5 { push_str } else { t1 }]), format_args!("[{}]", t1)), { t1 } = if (t5) { Some(push_str) } else { None }), raw!(push_str)),)) }
    h_29_g005(b) { let out_ = b; let item = t(1); let laby = t(1); let node = u8_(); let core = bool_(); let buffer = bool_(); lit("<figure "); esc(item); lit("=\"\">{|dflt}"); if core { lit("<hgroup "); esc(laby); lit("=\""); lit(item); lit("\">true\u{a0}</hgroup>"); } lit("<figcaption "); esc(item); lit("=\""); lit_dec(node as u32); lit("\"></figcaption><param "); esc(item); lit(" "); esc(item); lit("=\""); esc(item); lit("1.5"); if core { lit("<base fn=\"/&gt;\">"); } else { if core { lit("-170141183460469231731687303715884105728 "); lit(item); lit(" "); esc(laby); lit(" "); } else { lit("0123456789abcdef&lt;"); } } lit("\" "); esc(laby); lit("=\"\u{2028}\"></figure>"); end(out_, figure!(cmp1!(a = frag!()), if idb(core) { Some(hgroup!(2 == 3 || 4 == 4, S0.m(laby) = laby::raw!(item), const0!("\u{a0}"))) } else { None }, { item } = (), figcaption![(item, 1).0 = { node }], param![idf(item) = bool!(true), idm!(item) = frag!((move |q: &'static str| q)(item), match 0 { _ => 1.5 }, frag_match!(if { core } { base!{r#fn = loop { break "/>" }, { "blk" } = bool!((false))} } else { frag_match!(if S0.m(core) { classes!(i128::MIN, laby::raw!(item), unsafe { idu(laby) }, "") } else { ("0123456789abcdef<") }) }), ""), { { laby } } = { "\u{2028}" }])) }
    h_29_g006(b) { let out_ = b; let bool = t(1); let variant_1 = t(1); let tag = u8_(); let len = bool_(); let t2 = bool_(); lit("<span"); if !len { lit(" id"); } lit(">"); esc(bool); lit("</span>"); if tag == 7 || len { esc(bool); } lit("    "); esc(bool); lit(" "); lit(variant_1); lit("97"); end(out_, frag!{span!(bool, id = bool!(len ^ true)), if tag == 7 || len { Some(bool) } else { None }, classes![({ ("  ") }), frag!{}, idm!((move |q: &'static str| q)(bool)), frag!(laby::raw!(variant_1), b'a')]}) }
    h_29_g007(b) { let out_ = b; let frag = t(1); let core = bool_(); let t5 = bool_(); lit("<head loop=\"\"><h4><source aria-label=\"\""); if core { lit(" type"); } lit(" for=\"7\">"); esc(frag); lit("</h4></head>"); end(out_, head!(classes!(), r#loop = frag!{}, h4![source!("aria-label" = { (); }, r#type = bool!(core), r#for = classes![K7]), idf(frag)])) }
    h_29_g008(b) { let out_ = b; let name = t(1); let t4 = t(1); let div = bool_(); lit("<ins>  \0 <legend><hr></legend>{<embed data_x=\""); esc(name); lit("\" t1=\"97\">|dflt}</ins>"); end(out_, ins!(classes!(frag! {}, (), const0!("\0"), frag!(frag!())), legend!(hr!{}), cmp1!(a = embed!(data_x = Some((|| name)()).unwrap(), t1 = b'a')))) }
    h_29_g009(b) { let out_ = b; let self_ = t(1); let buf = t(1); let T1 = u8_(); let div = bool_(); let iter = bool_(); if !div { lit("<del .prop=\"1.50\">"); esc(buf); esc(self_); lit("</del>"); } lit("/&gt;"); end(out_, frag![if !div { Some(del!({ buf }, 'q: { break 'q self_ }, ".prop" = ("1.50"))) } else { None }, "/>"]) }
    h_29_g010(b) { let out_ = b; let del = t(1); let r#fn = t(1); let result = u8_(); let buffer = bool_(); let iter = bool_(); lit("<h3 Value=\""); esc(del); lit("\" "); esc(r#fn); lit("=\""); lit_dec(result as u32); lit("\" x:y=\""); esc(r#fn); lit("<"); esc(r#fn); lit("\"><meta><a"); if buffer { lit(" Value"); } lit(">"); esc(del); lit("  0 "); esc(del); esc(del); lit("&gt;"); esc(r#fn); lit("abc</a></h3>"); end(out_, h3!(meta!(), Value = Some(del), a!{classes!{del, { let _ = 1; }, match 0 { _ => "0" }, (|| del)()}, Value = bool!(buffer), del, match 0 { _ => ">" }, frag![idm!(r#fn), { "\r\n"; }, "abc"]}, S0.m(r#fn) = { result }, "x:y" = frag!(iter!("<", [r#fn, ({ let q = r#fn; q })]), "", { (); }))) }
    h_29_g011(b) { let out_ = b; let item = t(1); let div = t(1); let laby = u8_(); let node = bool_(); let Render = bool_(); lit("<figure>"); esc(item); if !node { lit("<rt :bind=\""); esc(item); lit(" a&lt;b {} "); esc(div); lit("\">"); lit(if node { "true" } else { "false" }); esc(item); lit("</rt>"); } lit("</figure>"); end(out_, figure!{(idm!(item)), if node ^ true { Some(rt!(":bind" = classes!(unsafe { idu(item) }, match 0 { _ => "a<b" }, idf("{}"), Some((move |q: &'static str| q)((div))),), ({ node }), String::from(item))) } else { None }}) }
    h_29_g012(b) { let out_ = b; let div = t(1); let T1 = t(1); let result = u8_(); let laby = bool_(); if laby || laby { lit("<samp del=\""); esc(T1); lit("\" lang=\"&lt;\">"); esc(T1); lit(", "); esc(div); lit("``</samp>"); } end(out_, frag![if laby || laby { Some(samp!{del = (move |q: &'static str| q)(T1), iter!(", ", [(T1), div]), ("``"), lang = if true { '<' } else { '<' }}) } else { None }, frag!(frag!())]) }
    h_29_g013(b) { let out_ = b; let t1 = t(1); let div = t(1); let t4 = bool_(); let T1 = bool_(); lit("<details><bdi><track>"); lit(div); lit("</bdi><head aria-label=\" \">0123456789012345678901234567890123456789<track"); if t4 || t4 { lit(" name"); } lit(" type=\"\""); if t4 { lit(" as"); } lit(">["); esc(t1); lit("]"); lit(div); lit("</head></details>"); end(out_, details![bdi!(track!(), laby::raw!(div)), head![frag!("0123456789012345678901234567890123456789"), "aria-label" = ({ (" ") }), track!(name = bool!(t4 || t4), r#type = classes!(), r#as = bool!({ t4 })), format_args!("[{}]", t1), laby::raw!(div)]]) }
    h_29_g014(b) { let out_ = b; let variant_1 = t(1); let push_str = t(1); let t5 = bool_(); let string = bool_(); lit("<progress"); if t5 { lit(" static"); } lit(">{<track value=\""); esc(push_str); lit("\" wrap=\""); esc(variant_1); lit(" 6\">|<embed"); if t5 && string { lit(" q&#39;&lt;"); } lit(">}</progress>"); end(out_, progress!(r#static = bool!({ t5 }), cmp1!(b = embed!("q'<" = bool!(t5 && string)), a = track!(value = (|| push_str)(), (("wrap")) = classes!{core::convert::identity::<&str>(*&variant_1), { 5; 6 }},)),)) }
    h_29_g015(b) { let out_ = b; let buffer = t(1); let args = bool_(); let html = bool_(); lit("<rtc"); if args { lit(" q&#39;&lt;"); } lit(" "); esc(buffer); lit("=\"44\">"); esc(buffer); lit(if args { "true" } else { "false" }); esc(buffer); lit("</rtc>"); end(out_, frag!(rtc!("q'<" = bool!((|| args)()), if let Some(q) = Some(buffer) { q } else { "no" }, ({ args }), ({ let q = buffer; q }), { buffer } = 300i32 as u8))) }
    h_29_g016(b) { let out_ = b; let len = t(1); let buffer = t(1); let laby = u8_(); let result = bool_(); lit("<td><ul>"); lit(if !result { "true" } else { "false" }); lit("</ul>"); if result && result { esc(buffer); } else { lit("<br "); esc(len); lit("=\""); esc(len); lit("\">"); } lit("</td>"); end(out_, td![ul![!result, { let _ = 1; }], frag_match!(if result && result { [buffer, "other"][0] } else { br!(idm!(len) = &len[..]) })]) }
    h_29_g017(b) { let out_ = b; let b = t(1); let div = t(1); let self_ = u8_(); let node = bool_(); lit("<map><map "); esc(div); lit("=\""); if self_ == 0 { lit("<col"); if node { lit(" "); esc(b); } lit(" del=\""); esc(b); lit("\" id=\""); esc(b); lit(" "); esc(b); lit("\">"); } else if self_ < 10 { lit("<link>"); } else { lit("many"); } lit("\" "); esc(div); lit("=\""); esc(b); lit("\">97"); esc(b); lit("</map></map>"); end(out_, map![core::iter::once(map!([div][0] = frag_match!(match self_ { 0 => col!(S0.m(b) = bool!(idb(node)), del = [b, "other"][0], id = classes!(W0(b), 'q: { break 'q b })), 1..=9 => link!(), _ => "many" }), { let q = div; q } = (move |q: &'static str| q)(b), b'a', S0.m(b))).next()]) }
    h_29_g018(b) { let out_ = b; let t3 = t(1); let push_str = t(1); let buffer = u8_(); let string = bool_(); lit("<tfoot "); esc(t3); lit("=\"3\" style=\""); lit_dec(buffer as u32); lit("\" data_x=\"<wbr true_=\"&lt;/p&gt;\""); if !string { lit(" "); esc(t3); } lit(" in=\""); if string { esc(t3); } else { esc(push_str); } lit("\">\"><base static=\""); esc(t3); lit("\">"); if string { esc(t3); } lit("</tfoot>"); end(out_, frag![tfoot![[t3][0] = 1 + 2, base!(r#static = { let q = idf; q((move |q: &'static str| q)(t3)) }), style = buffer as u32, if { string } { Some(t3) } else { None }, data_x = wbr!(r#true_ = classes!({ "</p>" }), idf(t3) = bool!(!string), r#in = match string { true => t3, false => push_str })]]) }
    h_29_g019(b) { let out_ = b; let node = t(1); let elem = t(1); let r#fn = bool_(); lit("<thead buffer=\"["); esc(elem); lit("]\""); if r#fn { lit(" "); esc(elem); } lit("><h2 aria-label=\""); esc(node); lit("\"></h2><dialog>"); esc(elem); esc(node); lit("</dialog></thead>"); end(out_, thead!(S0.m(h2!("aria-label" = node as &str)), buffer = format_args!("[{}]", elem), dialog!{String::from(elem), classes!('q: { break 'q Some(node) }),}, { { elem } } = bool!(idb(r#fn)))) }
    h_29_g020(b) { let out_ = b; let value = t(1); let result = t(1); let t6 = u8_(); lit("<ul><rp><meta>"); lit_dec(t6 as u32); esc(value); lit("</rp><section>"); esc(result); esc(value); lit("&amp;</section></ul>"); end(out_, ul!{rp!{meta!(), S0.m(t6), (|| value)()}, cmp0!(result, frag![{ let q = idf; q(value) }, "&"]), { (); },}) }
    h_29_g021(b) { let out_ = b; let p = t(1); let T1 = t(1); let t4 = u8_(); let r#fn = bool_(); lit("data-x<footer"); if !r#fn { lit(" frag"); } lit("><input "); esc(T1); lit("=\"\r\n\" data-id0=\"tab\t\" "); esc(p); lit("=\""); esc(T1); lit("\">"); esc(T1); lit_dec(t4 as u32); lit("</footer>"); end(out_, frag!(concat!("data-x", ""), footer!(input!((T1, 1).0 = "\r\n", (id0) = concat!("tab\t", ""), { let q = p; q } = idm!(T1)), frag = bool!(r#fn ^ true), frag!((move |q: &'static str| q)(T1), t4),))) }
    h_29_g022(b) { let out_ = b; let b = t(1); let html = t(1); let t3 = u8_(); lit("<map aria-label=\""); lit(html); lit("\" "); esc(b); lit("=\""); if t3 == 0 { lit("<col in=\""); lit_dec(t3 as u32); lit("\">"); } else if t3 < 10 { lit("0123456789abcdef&lt;"); } else { lit("many"); } lit("\"></map>"); end(out_, map!("aria-label" = laby::raw!(html), idf(b) = frag!(frag_match!(match t3 { 0 => col!(r#in = { t3 }), 1..=9 => "0123456789abcdef<", _ => "many" })))) }
    h_29_g023(b) { let out_ = b; let t3 = t(1); let bool = t(1); let t5 = u8_(); let t6 = bool_(); let render = bool_(); lit("<dl"); if t6 { lit(" n0"); } lit(">"); if t6 { esc(bool); } else { if t6 { esc(t3); } else { esc(t3); } } lit("</dl>"); end(out_, dl!(frag_match!(if t6 { (move |q: &'static str| q)(*&bool) } else { Some(if { t6 } { &t3[..] } else { t3 }).unwrap() }), NM[0] = bool!(t6))) }
    h_29_g024(b) { let out_ = b; let variant_1 = t(1); let data = t(1); let x = u8_(); let html = bool_(); let T1 = bool_(); if !html { esc(variant_1); } esc(variant_1); if html { lit("<button>"); esc(variant_1); lit("</button>"); } end(out_, frag!(if !html { Some(variant_1) } else { None }, variant_1, if !!html { Some(button!(variant_1)) } else { None })) }
    h_29_g025(b) { let out_ = b; let t5 = t(1); let classes = bool_(); let frag = bool_(); lit("<figcaption data-x=\"&amp;#39;\" "); esc(t5); lit("=\"a\">"); if !classes { esc(t5); } lit("</figcaption>"); end(out_, figcaption!("data-x" = ("&#39;"), if classes ^ true { Some(t5) } else { None }, idf(t5) = if true { "a" } else { "a" })) }
    h_29_g026(b) { let out_ = b; let tag = t(1); let raw = t(1); let render = u8_(); lit("<u a&quot;b=\"&amp;\"><figure c=\""); esc(tag); lit("\" "); esc(raw); lit("=\"true\" buffer=\"\">"); esc(raw); lit(" 1.5 "); esc(raw); lit("<hr data_x=\""); if render == 0 { lit("<param>"); } else if render < 10 { lit("/&gt;"); } else { lit("many"); } lit(" "); lit(tag); lit("\" blk=\"\"></figure></u>"); end(out_, u!(figure!('c' = loop { break (tag) }, idf(raw) = { true }, classes!(raw, 1.5, core::convert::identity::<&str>(if let Some(q) = Some(raw) { q } else { "no" })), buffer = "", hr!(data_x = classes!(frag_match!(match render { 0 => param!(), 1..=9 => frag!(const0!("/>"),), _ => "many" }), raw!({ tag })), { "blk" } = classes!())), "a\"b" = { "&" })) }
    h_29_g027(b) { let out_ = b; let frag = t(1); let string = u8_(); let data = bool_(); lit("\u{7f}"); if data { lit("<dt>"); if string == 0 { lit("255"); } else if string < 10 {  } else { lit("many"); } esc(frag); lit("</dt>"); } end(out_, frag!(({ ("\u{7f}") }), if data { Some(dt![frag_match!(match string { 0 => { 0xff }, 1..=9 => loop { break "" }, _ => "many" }), (frag)]) } else { None })) }
    h_29_g028(b) { let out_ = b; let raw = t(1); let render = t(1); let bool = u8_(); let self_ = bool_(); let data = bool_(); lit("<slot>"); lit_dec(bool as u32); lit("<meta x:y=\"\""); if self_ { lit(" lang"); } lit("><caption del"); if self_ { lit(" "); esc(raw); } if self_ { lit(" "); esc(raw); } lit(">"); if !self_ { lit(raw); } else if self_ {  } else { lit("0"); } lit("</caption><h1></h1>"); esc(render); lit("</slot>"); end(out_, slot!({ bool }, meta!("x:y" = classes!{}, lang = bool!({ self_ })), Some(caption!(del = bool!((true)), idm!(raw) = bool!(self_), { raw } = bool!(self_), frag_match!(if self_ ^ true { raw!(raw) } else if self_ { frag!() } else { 0 }))), cmp2!(P0 { a: "other", b: render }.b, title = frag!()))) }
    h_29_g029(b) { let out_ = b; let self_ = t(1); let core = t(1); let classes = bool_(); lit("<menuitem x=\""); esc(core); lit("\">"); if classes { lit("<q"); if classes { lit(" p"); } lit(">/&gt;"); esc(self_); lit("</q>"); } lit("</menuitem>"); end(out_, menuitem![if classes { Some(q!(p = bool!(classes), match 0 { _ => "/>" }, W0(self_))) } else { None }, x = ({ let q = core; q })]) }
    h_29_g030(b) { let out_ = b; let push_str = t(1); let t2 = t(1); let t3 = bool_(); lit("{<link buffer=\""); esc(t2); lit("\" hx-get=\"&#39;\" use=\""); esc(push_str); lit("\">|<meta @click=\""); if t3 { esc(push_str); } else { esc(t2); } lit("\" q&#39;&lt;=\""); lit(push_str); lit(" = "); lit(push_str); lit(" e\u{301}\" @click=\"255 "); esc(t2); lit("\">}"); end(out_, frag![frag! {}, frag! {}, cmp1!(b = meta!["@click" = match t3 { true => push_str, false => t2 }, "q'<" = classes!(raw!({ push_str }), idf("="), raw!({ push_str }), "e\u{301}"), "@click" = classes![u8::MAX, (t2)]], a = link!(buffer = S0.m(Some(t2)), "hx-get" = '\'', r#use = idm!(push_str)))]) }
    h_29_g031(b) { let out_ = b; let p = t(1); let r#fn = t(1); let classes = u8_(); let raw = bool_(); let elem = bool_(); lit("<menu value=\""); esc(p); esc(p); lit("\">"); lit_dec(classes as u32); if raw { esc(p); } if raw { lit("<map hx-get=\""); if raw { esc(p); } else { esc(r#fn); } lit("\">255"); if raw { esc(p); } lit("</map>"); } lit("</menu>"); end(out_, menu![S0.m(classes), if S0.m(raw) { Some(p) } else { None }, if (raw) { Some(map!("hx-get" = core::convert::identity::<&str>(if raw { p } else { r#fn }), u8::MAX, if !!raw { Some(p) } else { None })) } else { None }, value = frag![p, p]]) }
    h_29_g032(b) { let out_ = b; let name = t(1); let classes = t(1); let push_str = bool_(); let buffer = bool_(); lit("<iframe buffer=\""); esc(classes); esc(classes); lit("<"); esc(name); lit("\""); if !push_str { lit(" 7"); } lit(">"); esc(name); lit("</iframe>"); end(out_, iframe!{buffer = frag![W0('q: { break 'q 'q: { break 'q classes } }), iter!("<", [*&classes, ("other", name).1])], name, mk::SEV = bool!(push_str ^ true)}) }
    h_29_g033(b) { let out_ = b; let del = t(1); let p = u8_(); let b = bool_(); let classes = bool_(); if p < 10 { lit("<hr yield=\"7\">"); } else if b { lit(if b { "true" } else { "false" }); } else { lit("0"); } esc(del); end(out_, frag!(frag_match!(if matches!(p, 0..=9) { hr!{r#yield = 7} } else if S0.m(b) { (b) } else { 0 }), if let Some(q) = Some(del) { q } else { "no" },)) }
    h_29_g034(b) { let out_ = b; let iter = u8_(); let frag = bool_(); let buffer = bool_(); lit("<pre frag=\""); lit(if frag { "true" } else { "false" }); lit("\">"); if frag || frag { lit("<object>"); lit_dec(iter as u32); lit("</object>"); } lit("</pre>"); end(out_, pre![if frag || frag { Some(object!(iter as u32)) } else { None }, frag = frag]) }
    h_29_g035(b) { let out_ = b; let html = t(1); let string = t(1); let elem = u8_(); let div = bool_(); let p = bool_(); lit("<style "); esc(html); lit("=\"255\" "); esc(html); lit("=\"\"><kbd></kbd>"); if div { lit("<col"); if div { lit(" dyn"); } lit(" x=\""); lit_dec(elem as u32); lit("\">"); } lit("<input "); esc(html); lit("=\""); lit_dec(elem as u32); lit("\" "); esc(html); lit("=\""); lit(if div { "true" } else { "false" }); lit("\" async=\""); esc(string); lit("\"></style>"); end(out_, style!((html, 1).0 = 0xff, kbd!(), frag_match!(if (|| div)() { col![r#dyn = bool!(div), x = elem as u32] }), { html } = classes![], input!{{ html } = S0.m(elem), { { html } } = div, r#async = W0(string)})) }
    h_29_g036(b) { let out_ = b; let p = t(1); let buffer = u8_(); let value = bool_(); let render = bool_(); esc(p); lit(" "); lit(if value { "true" } else { "false" }); lit(" ["); esc(p); lit("]"); end(out_, frag!(classes!(P0 { a: "other", b: unsafe { idu(p) } }.b, classes!{S0.m(value), format_args!("[{}]", p)},))) }
    h_29_g037(b) { let out_ = b; let t1 = t(1); let p = t(1); let Render = u8_(); let buffer = bool_(); lit("<abbr"); if buffer && buffer { lit(" match"); } lit("><ul "); esc(t1); lit("=\"{}\" use=\""); if buffer { esc(t1); } lit("\"><input>["); esc(p); lit("]</ul><s>1000.0"); esc(t1); lit(" long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt; "); lit_dec(Render as u32); lit("</s></abbr>"); end(out_, abbr![ul!(idm!(t1) = loop { break "{}" }, r#use = if !!buffer { Some(t1) } else { None }, input!(), format_args!("[{}]", p), { t1 } = bool!({ false })), r#match = bool!(buffer && buffer), s![match 0 { _ => 1e3 }, classes!(Some(loop { break (t1) }).unwrap(), "long text that goes on and on & on, past thirty two bytes <i>", { Render })]]) }
    h_29_g038(b) { let out_ = b; let t5 = t(1); let raw = t(1); let node = u8_(); let t7 = bool_(); let t4 = bool_(); lit("<figcaption class=\"["); esc(t5); lit("]\""); if node == 7 || t7 { lit(" x:y"); } if t7 { lit(" q&#39;&lt;"); } lit("><var><track q&#39;&lt;=\""); esc(raw); lit("\""); if t7 { lit(" @click"); } lit(" hx-get=\"["); esc(raw); lit("]\"></var><audio>long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt;</audio></figcaption>"); end(out_, figcaption!(class = format_args!("[{}]", t5), var![track!("q'<" = raw, "@click" = bool!(t7), "hx-get" = format_args!("[{}]", raw))], audio!{"long text that goes on and on & on, past thirty two bytes <i>"}, "x:y" = bool!(node == 7 || t7), "q'<" = bool!((|| t7)()))) }
    h_29_g039(b) { let out_ = b; let push_str = t(1); let t7 = u8_(); let escape = bool_(); let t4 = bool_(); lit("<s><hr frag=\"12\""); if escape { lit(" a&quot;b"); } lit("><area"); if !escape { lit(" data-x"); } if escape { lit(" frag"); } lit(" t1=\""); esc(push_str); lit("\"></s>"); end(out_, frag![s!(hr![frag = ({ (12i64) }), "a\"b" = bool!({ escape })], area!{"data-x" = bool!(!escape), frag = bool!(S0.m(escape)), t1 = push_str})]) }
    h_29_g040(b) { let out_ = b; let t1 = t(1); let div = t(1); let x = u8_(); lit("<a>"); if x == 0 { lit("#"); } else if x < 10 { lit("0"); } else { lit("many"); } lit("<label><param "); esc(t1); lit("=\"\" "); esc(div); lit("=\"\">7</label></a>"); end(out_, a!(frag_match!(match x { 0 => idf("#"), 1..=9 => -0, _ => "many" }), label!(param!([t1][0] = classes!({ ""; }), { let q = div; q } = { let _ = 1; }), K7))) }
    h_29_g041(b) { let out_ = b; let variant_1 = t(1); let t2 = u8_(); let len = bool_(); lit("<q "); esc(variant_1); lit("=\"false "); esc(variant_1); lit(" "); lit(if len { "true" } else { "false" }); lit(" "); lit(if len { "true" } else { "false" }); lit("\"></q>"); end(out_, q!((variant_1, 1).0 = classes![!true, Some(variant_1), len, S0.m(len)])) }
    h_29_g042(b) { let out_ = b; let value = t(1); let elem = t(1); let variant_1 = u8_(); lit("<tbody "); esc(value); lit("=\""); lit_dec(variant_1 as u32); lit("\">"); lit(value); lit("<link x=\""); esc(elem); lit("\" "); esc(elem); lit("=\"["); esc(value); lit("]\" aria-label=\""); esc(value); lit("\"></tbody><picture data_x=\""); lit_dec(variant_1 as u32); lit("\">"); esc(elem); lit("</picture>"); end(out_, frag!(tbody![[value][0] = variant_1, laby::raw!(value), link!(x = core::convert::identity::<&str>(elem), idf(elem) = format_args!("[{}]", value), "aria-label" = *&value)], (picture![elem, data_x = variant_1 as u32]))) }
    h_29_g043(b) { let out_ = b; let html = t(1); let b = t(1); let bool = u8_(); let t5 = bool_(); let push_str = bool_(); lit("<style"); if bool > 99 { lit(" "); esc(html); } lit("><source style=\""); esc(html); lit("\" v-on:a.b=\"long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt;\">"); esc(b); lit("  1.50 "); lit(if t5 { "true" } else { "false" }); lit("</style>"); end(out_, style!{{ html } = bool!(bool > 99), source!(style = html, "v-on:a.b" = "long text that goes on and on & on, past thirty two bytes <i>"), classes![b, "", classes!(concat!("1.50", ""), (t5))]}) }
    h_29_g044(b) { let out_ = b; let this = t(1); let del = t(1); let r#fn = bool_(); lit("<legend onclick=\""); esc(del); lit("\" for=\"6\" dyn=\""); if r#fn { esc(this); } lit("\"><legend static=\""); lit(if r#fn { "true" } else { "false" }); lit("\" "); esc(this); lit("=\"97\">"); esc(del); lit("<track .prop=\"\">世界</legend>\u{200b}"); if r#fn { lit("<dialog data-x=\"x y\">&amp;</dialog>"); } lit("<html><col onclick=\"x y\" "); esc(del); lit("=\"\"></html></legend>"); end(out_, legend!{onclick = del, r#for = { 5; 6 }, legend!(r#static = (r#fn), Some(del), track!{".prop" = classes![]}, Some(this) = (b'a'), concat!("世界", "")), "\u{200b}", if { r#fn } { Some(dialog!{"data-x" = match 0 { _ => "x y" }, if true { "&" } else { "&" },}) } else { None }, r#dyn = frag![if S0.m(r#fn) { Some(this) } else { None }], html!(col!(onclick = "x y", { del } = { "%"; },))}) }
    h_29_g045(b) { let out_ = b; let string = t(1); let push_str = t(1); let t5 = bool_(); esc(string); lit(", "); esc(push_str); lit("abc<h1><img Value=\"\"></h1><source>"); if !t5 { lit("<base"); if t5 || t5 { lit(" name"); } lit(" q&#39;&lt;=\"\0\">"); } else if t5 && t5 {  } else { lit("0"); } end(out_, frag!(iter!(", ", [({ let q = { let q = idf; q(string) }; q }), push_str]), concat!("abc", ""), cmp2!(source!{}, title = img!(Value = classes![frag! {}])), frag_match!(if t5 ^ true { base![name = bool!(t5 || t5), "q'<" = "\0",] } else if t5 && t5 { frag!() } else { 0 }))) }
    h_29_g046(b) { let out_ = b; let iter = t(1); let b = t(1); let escape = u8_(); let x = bool_(); let classes = bool_(); lit("<form>"); if x { lit("<img "); esc(iter); lit("=\""); lit(if !x { "true" } else { "false" }); lit(" "); esc(iter); lit(" "); if x { esc(b); } lit(" 97\""); if x { lit(" "); esc(iter); } lit(">"); } else { esc(iter); lit("\00123456789abcdef"); } lit("<ruby "); esc(b); lit("=\"<wbr>\"></ruby></form>"); end(out_, form![frag_match!(if idb(x) { img!([iter][0] = classes!{!x, iter, if !!x { Some(b) } else { None }, match 0 { _ => b'a' }}, { let q = iter; q } = bool!(S0.m(x)),) } else { frag!({ let q = idf; q(iter) }, concat!("\0", ""), "0123456789abcdef") }), ruby!(Some(b) = wbr!(),)]) }
    h_29_g047(b) { let out_ = b; let buf = t(1); let self_ = bool_(); let item = bool_(); lit("<h5 use=\"é\">"); esc(buf); lit("<section><meta"); if self_ { lit(" data_x"); } lit(" _u=\"\" é=\""); if !self_ { esc(buf); } lit("\">é</section></h5>"); end(out_, h5!{'q: { break 'q buf }, r#use = ({ ('é') }), cmp0!(meta![data_x = bool!({ self_ }), _u = classes!{}, "é" = if self_ ^ true { Some(buf) } else { None }], { 'é' })}) }
    h_29_g048(b) { let out_ = b; let x = t(1); let core = t(1); let Render = u8_(); let t2 = bool_(); let t5 = bool_(); lit("<bdo><base></bdo><textarea "); esc(x); lit("=\"#\""); if !t2 { lit(" t1"); } lit(" title=\""); if Render == 0 { lit("<wbr"); if !t2 { lit(" hx-get"); } lit(" p=\"12\">"); } else if Render < 10 { lit("<img>"); } else { lit("many"); } lit("\">"); lit(core); lit("</textarea><sub x:y=\"UP\">"); esc(x); lit("<link &lt;=\"\" "); esc(x); lit("=\"\" .prop=\";\"></sub>"); end(out_, frag!{bdo!{{ "r#\""; }, base!()}, textarea!{frag!(raw!({ core }), frag!(frag!())), { let q = x; q } = loop { break "#" }, t1 = bool!(t2 ^ true), title = frag_match!(match Render { 0 => wbr!("hx-get" = bool!(t2 ^ true), id = bool!({ false }), p = { 12i64 }), 1..=9 => img!(), _ => "many" })}, sub!(x as &str, link!('<' = None::<&str>, S0.m(x) = classes!(), ".prop" = (";")), "x:y" = loop { break "UP" })}) }
    h_29_g049(b) { let out_ = b; let t6 = t(1); let name = t(1); let render = u8_(); let item = bool_(); lit("<ul>{<param t1=\""); if render == 0 { esc(t6); esc(name); esc(t6); } else if render < 10 { lit("<track"); if item { lit(" é"); } lit(" a&quot;b=\"\r\n "); esc(t6); lit("\" "); esc(t6); lit("=\""); esc(t6); lit("\">"); } else { lit("many"); } lit("\">|dflt}</ul>"); end(out_, ul!(cmp1!(a = param!(t1 = frag_match!(match render { 0 => frag!{&t6[..], name, Some(P0 { a: "other", b: ("other", t6).1 }.b), { "/>"; }}, 1..=9 => track!("é" = bool!(item), "a\"b" = classes!("\r\n", { t6 }), [t6][0] = idf(P0 { a: "other", b: t6 }.b),), _ => "many" }))))) }
    h_29_g050(b) { let out_ = b; let string = t(1); let html = t(1); let laby = u8_(); let elem = bool_(); let this = bool_(); lit("<tfoot "); esc(string); lit("=\""); lit_dec(laby as u32); lit("\""); if elem && elem { lit(" p"); } lit(" "); esc(string); lit("=\""); lit(string); lit("\"><head><param a-b=\""); lit(if elem && this { "true" } else { "false" }); lit("\"></head>"); if elem { esc(string); } lit("<link>"); esc(html); esc(string); esc(string); esc(string); lit("</tfoot>"); end(out_, tfoot![head![param!(S0.f = bool!(false), concat!("a", "-b") = (elem && this))], frag!(if (|| elem)() { Some(string) } else { None }, link![], frag![iter!([html, unsafe { idu(string) }]), string as &str]), (string, 1).0 = laby, p = bool!(elem && elem), idf(string) = laby::raw!(string), string]) }
    h_29_g051(b) { let out_ = b; let del = t(1); let render = t(1); let iter = u8_(); let string = bool_(); let self_ = bool_(); lit("<col"); if string { lit(" "); esc(del); } lit(" del=\"x y "); esc(del); lit(" "); esc(del); lit(" "); esc(render); lit("\"><track async=\"it&#39;s\" data-x=\"\" &lt;=\"\">"); esc(render); lit("<embed"); if !string { lit(" del"); } lit(" buffer=\""); lit(del); lit("\""); if string || string { lit(" hx-get"); } lit("><rb "); esc(render); lit("=\""); lit_dec(iter as u32); lit("\">"); esc(render); lit("["); esc(del); lit("]</rb>"); end(out_, frag!(frag!{col!(idf(del) = bool!(!!string), del = classes!(const0!("x y"), W0(del as &str), String::from(idf(del)), unsafe { idu((move |q: &'static str| q)(render)) })), track![r#async = { "it's" }, "data-x" = (), '<' = classes!{}], if let Some(q) = Some(P0 { a: "other", b: render }.b) { q } else { "no" }, embed!(del = bool!(string ^ true), buffer = raw!(del), "hx-get" = bool!(string || string))}, rb!{if let Some(q) = Some(render) { q } else { "no" }, format_args!("[{}]", del), [render][0] = iter as u32})) }
    h_29_g052(b) { let out_ = b; let t2 = t(1); let result = t(1); let node = u8_(); let args = bool_(); let elem = bool_(); lit("<dialog style=\""); esc(result); lit("\""); if args { lit(" "); esc(t2); } lit(">"); if args { lit("<caption>false"); esc(result); lit("</caption>"); } lit("<optgroup"); if !args { lit(" p"); } lit("><param async=\"\" a-b=\""); esc(result); lit("\"></optgroup></dialog>"); end(out_, dialog![style = 'q: { break 'q result }, if idb(args) { Some(caption!(!true, if let Some(q) = Some(result) { q } else { "no" })) } else { None }, Some(t2) = bool!((|| args)()), optgroup![param![r#async = { (); }, concat!("a", "-b") = { result }], p = bool!(!args)], {},]) }
    h_29_g053(b) { let out_ = b; let buffer = t(1); let del = t(1); let iter = bool_(); lit("<code .prop=\"\" as=\""); esc(del); lit("\" "); esc(buffer); lit("=\""); lit(if iter && iter { "true" } else { "false" }); lit("\"><link "); esc(buffer); lit("=\"<br>\"></code>"); end(out_, code![".prop" = { (); }, r#as = del, link!{{ buffer } = br!()}, (buffer, 1).0 = (iter && iter)]) }
    h_29_g054(b) { let out_ = b; let frag = t(1); let del = u8_(); let t2 = bool_(); let raw = bool_(); lit("<small true_=\"<link"); if t2 { lit(" "); esc(frag); } lit(">\" q&#39;&lt;=\"\r\n\" async=\""); esc(frag); esc(frag); lit("\">"); esc(frag); lit("</small>"); lit_dec(del as u32); end(out_, frag!(small![r#true_ = link!({ let q = frag; q } = bool!(S0.m(t2))), core::convert::identity::<&str>(frag), "q'<" = if true { "\r\n" } else { "\r\n" }, r#async = iter!([frag, frag])], { del })) }
    h_29_g055(b) { let out_ = b; let classes = t(1); let buffer = t(1); let variant_1 = u8_(); let buf = bool_(); let frag = bool_(); lit("<span><meta><source aria-label=\""); lit(if buf { "true" } else { "false" }); lit("\" true_=\""); lit(if !buf { "true" } else { "false" }); lit("\"><dfn data_x=\""); esc(buffer); lit("\"><input "); esc(classes); lit(">"); if variant_1 == 0 { lit("<input"); if buf || buf { lit(" "); esc(buffer); } lit(">"); } else if variant_1 < 10 { lit("<img class id=\""); esc(classes); lit("\">"); } else { lit("many"); } lit("</dfn></span>"); end(out_, span!(frag!{meta!(), source!("aria-label" = buf, r#true_ = !buf)}, dfn!{input!(S0.m(classes) = bool!(true), x = bool!(false)), frag_match!(match variant_1 { 0 => input!{S0.m(buffer) = bool!(buf || buf)}, 1..=9 => img!(class = bool!(true), id = core::convert::identity::<&str>(classes)), _ => "many" }), data_x = &buffer[..], frag!()})) }
    h_29_g056(b) { let out_ = b; let t2 = t(1); let del = t(1); let p = u8_(); let classes = bool_(); let variant_1 = bool_(); lit("<address>&lt;"); if classes { lit("<em"); if classes { lit(" wrap"); } lit(">"); if classes { esc(t2); } else { esc(del); } esc(del); lit("</em>"); } lit("</address>"); end(out_, address!('<', if classes { Some(em!(String::from(if (classes) { idf(t2) } else { del }), (("wrap")) = bool!(!!classes), del)) } else { None })) }
    h_29_g057(b) { let out_ = b; let len = t(1); let t3 = u8_(); let t5 = bool_(); let this = bool_(); lit("<figcaption "); esc(len); lit("=\""); if t5 { esc(len); } lit("\"><param"); if t5 { lit(" "); esc(len); } lit("></figcaption><br x=\""); esc(len); lit("\"><q>0</q><select></select>"); end(out_, frag!(figcaption!(param!{(len, 1).0 = bool!(!!t5)}, { let q = len; q } = if t5 { Some(len) } else { None }), br![x = P0 { a: "other", b: len }.b], q!(-0), idm!(select![]))) }
    h_29_g058(b) { let out_ = b; let div = t(1); let name = t(1); let laby = bool_(); let value = bool_(); lit("<hgroup>"); if !laby { lit("<map .prop=\""); esc(div); esc(div); lit("\">"); esc(name); esc(name); lit("</map>"); } lit("</hgroup>"); end(out_, hgroup!{if !laby { Some(map!(("other", name).1, ".prop" = iter!("", [div, loop { break (div) }]), name)) } else { None }}) }
    h_29_g059(b) { let out_ = b; let data = t(1); let t7 = bool_(); let classes = bool_(); lit("<div as=\""); lit(if t7 { "true" } else { "false" }); lit("\" "); esc(data); lit("=\"\u{1f468}\u{200d}\u{1f469}\"><section>false"); lit(if t7 { "true" } else { "false" }); lit("</section></div>"); end(out_, div!{cmp0!(frag![false], (t7)), r#as = idb(t7), [data][0] = idf("\u{1f468}\u{200d}\u{1f469}")}) }
    h_29_g060(b) { let out_ = b; let variant_1 = t(1); let x = t(1); let t4 = u8_(); let result = bool_(); lit("<param><input"); if result { lit(" c"); } if !result { lit(" "); esc(x); } lit("><base in=\"["); esc(variant_1); lit("]\" class=\""); esc(variant_1); lit("\" name=\""); esc(variant_1); lit("\">"); end(out_, frag!(param!(), input!('c' = bool!(result), Some(x) = bool!(!result)), base!(r#in = format_args!("[{}]", variant_1), class = String::from(variant_1), name = ({ let q = variant_1; q })))) }
    h_29_g061(b) { let out_ = b; let len = t(1); let classes = t(1); let b = u8_(); let core = bool_(); let buf = bool_(); lit("<td data-x=\"/&gt;"); esc(len); lit("\" é=\"<link class=\"\r\n\">\">"); if core || core { lit("<html x=\""); esc(len); lit("\">"); esc(len); esc(classes); lit_dec(b as u32); lit("</html>"); } lit("["); esc(len); lit("]<section"); if core && buf { lit(" c"); } lit(" lang=\"é\">"); esc(len); esc(len); lit("<param as=\""); lit(if !core { "true" } else { "false" }); lit("\" title=\"long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt;\">;</section></td>"); end(out_, td!(if core || core { Some(html!(iter!(['q: { break 'q len }, idf(classes)]), b as u32, x = len)) } else { None }, "data-x" = frag!("/>", idm!(len)), "é" = link!{class = "\r\n"}, format_args!("[{}]", len), section![(({ let q = P0 { a: "other", b: len }.b; q })), *&len, param!(r#as = (core ^ true), title = idf("long text that goes on and on & on, past thirty two bytes <i>")), ";", 'c' = bool!(core && buf), lang = "é"])) }
    h_29_g062(b) { let out_ = b; let t6 = t(1); let frag = t(1); let b = u8_(); let buffer = bool_(); let html = bool_(); lit("<body del=\""); lit_dec(b as u32); lit("\""); if buffer || html { lit(" del"); } lit(" dyn><div "); esc(t6); lit("=\""); lit_dec(b as u32); lit("\">["); esc(t6); lit("]["); esc(t6); lit("]<embed aria-label=\""); esc(t6); lit(", "); esc(frag); lit("\" del=\""); lit_dec(b as u32); lit("\"></div></body>"); end(out_, body!(del = b as u32, div!{idf(t6) = b, frag!{format_args!("[{}]", t6), format_args!("[{}]", t6)}, embed!["aria-label" = iter!(", ", [t6, idm!(frag)]), del = b,]}, del = bool!(buffer || html), r#dyn = bool!(true))) }
    h_29_g063(b) { let out_ = b; let string = t(1); let tag = t(1); let raw = u8_(); let self_ = bool_(); lit_dec(raw as u32); if self_ { esc(tag); } lit("<input lang=\"&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;\">"); esc(string); lit("<meta yield=\"\">"); end(out_, frag!(S0.m(raw), if { self_ } { Some(tag) } else { None }, input!(lang = ("<<<<<<<<<<<<<<<<")), frag!(frag!({}), string, meta!(r#yield = classes!())))) }
    h_29_g064(b) { let out_ = b; let string = t(1); let len = u8_(); let buffer = bool_(); let t5 = bool_(); lit("<textarea"); if buffer { lit(" "); esc(string); } lit(">r#&quot;<noscript>"); esc(string); lit("</noscript></textarea>"); end(out_, textarea![idf(string) = bool!(buffer), concat!("r#\"", ""), Some(noscript![Some(string)]), ""]) }
    h_29_g065(b) { let out_ = b; let buffer = t(1); let t2 = t(1); let t3 = u8_(); let t4 = bool_(); let len = bool_(); lit("<datalist"); if t4 { lit(" _u"); } if !t4 { lit(" "); esc(t2); } if t4 || len { lit(" hx-get"); } lit(">"); esc(buffer); lit("</datalist>"); end(out_, datalist![_u = bool!(t4), [t2][0] = bool!(!t4), (buffer), "hx-get" = bool!(t4 || len)]) }
    h_29_g066(b) { let out_ = b; let len = t(1); let html = t(1); let classes = u8_(); lit("<track buffer=\""); esc(len); lit("\">"); esc(len); if classes == 0 { esc(html); } else if classes < 10 { lit("<br :bind=\""); esc(html); lit("\">"); } else { lit("many"); } lit("false"); end(out_, frag!(track!{buffer = if let Some(q) = Some(len) { q } else { "no" }}, len, frag_match!(match classes { 0 => html, 1..=9 => br![":bind" = unsafe { idu(html) }], _ => "many" }), !true)) }
    h_29_g067(b) { let out_ = b; let t3 = t(1); let push_str = t(1); let p = bool_(); lit("<aside frag=\""); if p { lit("<wbr>"); } lit("\">9&lt;<dl data-id0=\""); esc(t3); lit("\" "); esc(push_str); lit("=\"255\"></dl></aside>"); end(out_, aside!(frag![frag! {}, 3i8.pow(2), loop { break "<" }, classes!{}], frag = frag![frag_match!(if idb(p) { wbr!() }),], dl!{(id0) = 'q: { break 'q t3 }, Some(push_str) = u8::MAX})) }
    h_29_g068(b) { let out_ = b; let buf = t(1); let data = t(1); let core = u8_(); let push_str = bool_(); lit("<h5 7=\""); esc(buf); lit("\">{<meta "); esc(data); lit("=\""); lit_dec(core as u32); lit("\">|<embed buffer=\""); if !push_str { esc(buf); } lit("\" "); esc(buf); lit("=\""); esc(buf); lit("\">}["); esc(buf); lit("]</h5>"); end(out_, h5!{cmp1!(b = embed!(buffer = classes!(if !push_str { Some(buf) } else { None }), idm!(buf) = Some(buf as &str)), a = meta!(S0.m(data) = core as u32,)), 7 = ({ let q = ("other", buf).1; q }), format_args!("[{}]", buf), a1 = bool!((false))}) }
    h_29_g069(b) { let out_ = b; let Render = t(1); let escape = t(1); let t6 = bool_(); esc(escape); lit("<hr value=\"6\" .prop=\""); if t6 { esc(Render); } lit("\""); if t6 { lit(" del"); } lit(">"); end(out_, frag!(core::convert::identity::<&str>(idf(escape)), hr!{value = { 5; 6 }, ".prop" = frag_match!(if t6 { Render }), del = bool!((t6))})) }
    h_29_g070(b) { let out_ = b; let t2 = u8_(); let core = bool_(); let buffer = bool_(); lit("<style p=\""); lit_dec(t2 as u32); lit("\"><time a=\"q&quot;q\"><param"); if core { lit(" match"); } lit("><param></time></style>"); end(out_, style!(time!["a" = r#"q"q"#, param!(r#match = bool!((core))), param![]], p = t2 as u32)) }
    h_29_g071(b) { let out_ = b; let t2 = t(1); let push_str = bool_(); let t4 = bool_(); lit("<dfn title=\""); esc(t2); lit("\"><tfoot><area"); if !push_str { lit(" del"); } lit(">c</tfoot></dfn>"); end(out_, dfn!(title = t2, tfoot!(area!{{ t2 } = bool!({ false }), del = bool!(push_str ^ true)}, loop { break 'c' }))) }
    h_29_g072(b) { let out_ = b; let p = t(1); let elem = u8_(); let laby = bool_(); if laby { lit("<address>"); lit(if laby { "true" } else { "false" }); lit("{{}}</address>"); } esc(p); end(out_, frag!(if laby { Some(address![idb(laby), loop { break "{{}}" }]) } else { None }, p as &str)) }
    h_29_g073(b) { let out_ = b; let t3 = t(1); let buf = t(1); let html = u8_(); let value = bool_(); let elem = bool_(); lit("<aside>"); esc(buf); lit(" abc  "); if value { esc(t3); } lit("<tbody "); esc(t3); lit("=\""); lit(if value { "true" } else { "false" }); lit("\">true</tbody><button id=\"c\" :bind=\"tab\t\" "); esc(buf); lit("=\"  \"><param del=\"&lt;\"><area></button></aside>"); end(out_, aside!{classes!(if let Some(q) = Some(buf) { q } else { "no" }, "abc", frag!(), if !!value { Some(t3) } else { None }), tbody!(true, idf(t3) = ({ value })), button!{id = 'c', ":bind" = "tab\t", param!(del = "<",), area!(), (buf, 1).0 = match 0 { _ => "  " }}}) }
    h_29_g074(b) { let out_ = b; let node = t(1); let string = t(1); let b = u8_(); let bool = bool_(); lit("<thead x:y=\""); if b == 0 { lit(string); } else if b < 10 { lit("44"); } else { lit("many"); } lit("\" frag=\"9\"><h1 "); esc(node); lit("=\""); lit(node); lit(" "); if bool { esc(node); } else { esc(string); } lit("\">-</h1>"); esc(node); lit("</thead>"); end(out_, thead!{"x:y" = frag_match!(match b { 0 => raw!(string), 1..=9 => 300i32 as u8, _ => "many" }), idm!(h1!([node][0] = classes!(laby::raw!(node), match bool { true => node, false => string }), { "-" })), ({ let q = node; q }), frag = 9u8}) }
    h_29_g075(b) { let out_ = b; let self_ = t(1); let laby = t(1); let t1 = u8_(); let t4 = bool_(); let t3 = bool_(); lit("<area"); if !t4 { lit(" "); esc(self_); } lit(" @click=\""); if t4 { esc(self_); } esc(laby); if t4 { esc(self_); } lit("2.0\"><b>"); esc(self_); lit("<area>"); esc(self_); lit("</b>"); end(out_, frag!{area![S0.m(self_) = bool!(t4 ^ true), "@click" = frag!(if S0.m(t4) { Some(self_) } else { None }, (move |q: &'static str| q)(({ let q = laby; q })), if S0.m(t4) { Some(self_) } else { None }, (2.0))], b!(self_, area!(), [self_, "other"][0]),}) }
    h_29_g076(b) { let out_ = b; let escape = t(1); let args = t(1); let t4 = bool_(); lit("<s Value=\"["); esc(args); lit("]\" a&quot;b=\"a\r\nb\" a1=\"<br a&quot;b=\"7\" bool=\""); esc(escape); lit(" "); esc(escape); lit(" 0 255\" "); esc(args); lit("=\"\">\"><tfoot>  two  "); esc(escape); lit("</tfoot>"); if t4 { if t4 { esc(escape); } else { esc(escape); } } else { esc(args); } lit("</s>"); end(out_, s!(Value = format_args!("[{}]", args), "a\"b" = idf("a\r\nb"), tfoot!{({ ("  two  ") }), idf(escape)}, match t4 { true => match t4 { true => escape, false => escape }, false => args }, a1 = br!("a\"b" = classes!(7,), bool = classes!(if let Some(q) = Some(escape) { q } else { "no" }, Some(escape), -0, !0u8,), { { args } } = classes!()))) }
    h_29_g077(b) { let out_ = b; let args = t(1); let push_str = t(1); let t1 = bool_(); let value = bool_(); lit("<rt v-on:a.b=\"<meta>\"><legend style=\""); esc(push_str); lit("\"><meta"); if t1 { lit(" use"); } lit("></legend></rt>"); end(out_, rt!["v-on:a.b" = meta![], legend![meta!(r#use = bool!((|| t1)())), style = push_str]]) }
    h_29_g078(b) { let out_ = b; let b = t(1); let p = t(1); let laby = u8_(); lit("<ol bool=\"&lt;\" "); esc(p); lit("=\""); esc(b); lit(" "); esc(p); lit(" "); esc(p); lit("\" href=\""); lit_dec(laby as u32); lit("\">255</ol>"); end(out_, frag!(W0(ol!(u8::MAX, bool = classes!{({ ("<") })}, [p][0] = classes![[b, "other"][0], *&p, *&p], href = laby)), "")) }
    h_29_g079(b) { let out_ = b; let t1 = t(1); let r#fn = t(1); let t4 = u8_(); let buffer = bool_(); let laby = bool_(); lit("<abbr"); if buffer { lit(" _u"); } lit(">"); lit(if buffer { "true" } else { "false" }); lit("<figure><link buffer c=\""); esc(r#fn); lit("\" "); esc(t1); lit("=\"\u{a0} "); esc(t1); lit(" "); esc(t1); lit("\"></figure>q&quot;q</abbr>"); end(out_, abbr!(!!buffer, figure!(link![buffer = bool!({ true }), 'c' = ({ let q = Some(r#fn).unwrap(); q }), { t1 } = classes!(concat!("\u{a0}", ""), unsafe { idu(loop { break (t1) }) }, unsafe { idu(({ let q = t1; q })) })]), frag!(), _u = bool!(S0.m(buffer)), r#"q"q"#)) }
}
