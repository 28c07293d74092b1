//! boolean attributes of every form (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{string::String, format, vec, vec::Vec};
fn idf<T>(v: T) -> T { v }
fn idb(v: bool) -> bool { v }
unsafe fn idu<T>(v: T) -> T { v }
struct S0s { f: &'static str }
static S0: S0s = S0s { f: "f0" };
impl S0s { fn m<T>(&self, v: T) -> T { v } }
struct P0<A, B> { a: A, b: B }
struct W0<T>(T);
impl<T: Render> Render for W0<T> { fn render(self, buffer: &mut Buffer) { self.0.render(buffer) } }
const K7: u8 = 7;
mod mk { pub const SEV: u8 = 7; }
const NM: [&str; 2] = ["n0", "n1"];
fn nm(s: &'static str) -> &'static str { s }
#[allow(non_upper_case_globals)] const id0: &str = "data-id0";
macro_rules! idm { ($e:expr) => { $e } }
macro_rules! const0 { ($e:expr) => {{ const C0: &str = $e; C0 }} }
#[laby] fn cmp0(#[rest] r: impl Render) -> impl Render { section!(r) }
#[laby] fn cmp1(a: impl Render, #[default("dflt")] b: impl Render) -> impl Render { frag!("{", a, "|", b, "}") }
#[laby] fn cmp2(title: impl Render, #[rest] body: impl Render) -> impl Render { frag!(h1!(title), body) }
case! {
    h_17_g000(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<figcaption"); if k { lit(" "); esc(y); } lit(" Value=\""); if k { esc(x); } lit("\"></figcaption>"); end(b, figcaption!((y, 1).0 = bool!(S0.m(k)), Value = if (k) { Some(x) } else { None })) }
    h_17_g001(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<h3 :bind"); if !k { lit(" t1"); } if k { lit(" "); esc(x); } lit("></h3>"); end(b, h3!(":bind" = bool!((true)), t1 = bool!(!k), [x][0] = bool!((|| k)()))) }
    h_17_g002(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<figure"); if k { lit(" q&#39;&lt;"); } lit(" "); esc(x); lit("=\"\""); if k { lit(" "); esc(x); } if k { lit(" Value"); } lit("></figure>"); end(b, figure!("q'<" = bool!(idb(k)), (x, 1).0 = classes![{ "abc"; }], { { x } } = bool!(k), Value = bool!((|| k)()))) }
    h_17_g003(b) { let k = bool_(); let l = bool_(); lit("<h6"); if k { lit(" _u"); } lit(" static=\"\"></h6>"); end(b, h6!(_u = bool!((|| k)()), r#static = { "</p>"; })) }
    h_17_g004(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<body"); if k { lit(" p"); } lit(" .prop=\"=\""); if k { lit(" "); esc(x); } lit("></body>"); end(b, body!(p = bool!(S0.m(k)), ".prop" = ({ ("=") }), [x][0] = bool!({ k }))) }
    h_17_g005(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<canvas"); if k { lit(" use"); } lit(" "); esc(y); if !k { lit(" p"); } lit("></canvas>"); end(b, canvas!(r#use = bool!(idb(k)), [y][0] = bool!((true)), (x, 1).0 = bool!({ false }), p = bool!(!k))) }
    h_17_g006(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<h1"); if k { lit(" fn"); } lit(" frag=\"0123456789abcdef&lt;\"></h1>"); end(b, h1!(r#fn = bool!(k), frag = concat!("0123456789abcdef<", ""))) }
    h_17_g007(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<bdi"); if k || l { lit(" dyn"); } lit(" dyn=\""); esc(y); esc(y); lit("\" "); esc(x); lit("></bdi>"); end(b, bdi!(r#dyn = bool!(k || l), r#dyn = iter!("", [loop { break (y) }, y]), idm!(x) = bool!({ true }))) }
    h_17_g008(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<form"); if v > 99 { lit(" onclick"); } lit(" "); esc(x); lit("=\"&lt;!--\""); if k { lit(" v-on:a.b"); } lit("></form>"); end(b, form!(onclick = bool!(v > 99), { x } = classes!(("<!--")), idf(x) = bool!(({ (false) })), "v-on:a.b" = bool!((k)))) }
    h_17_g009(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<form"); if k { lit(" "); esc(x); } if v < 10 { lit(" data_x"); } lit("></form>"); end(b, form!({ { x } } = bool!(S0.m(k)), data_x = bool!(matches!(v, 0..=9)))) }
    h_17_g010(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<code"); if k { lit(" "); esc(x); } lit(" "); esc(y); lit("=\"\u{2028} "); lit(x); lit("  \u{200b}\""); if k { lit(" "); esc(x); } lit("></code>"); end(b, code!((x, 1).0 = bool!(k), (y, 1).0 = classes!("\u{2028}", laby::raw!(x), frag!(frag!()), idf("\u{200b}")), { let q = x; q } = bool!(idb(k)))) }
    h_17_g011(b) { let x = t(1); let k = bool_(); let l = bool_(); lit("<code hx-get blk=\""); esc(x); lit("\""); if k { lit(" p"); } lit("></code>"); end(b, code!("hx-get" = bool!((true)), { "blk" } = &x[..], p = bool!(k), "hx-get" = bool!({ false }))) }
    h_17_g012(b) { lit("<details ref t1=\"`` \u{1b}\"></details>"); end(b, details!(r#ref = bool!((true)), t1 = classes!(concat!("``", ""), idf("\u{1b}")))) }
    h_17_g013(b) { let y = t(1); let v = u8_(); let k = bool_(); lit("<cite"); if k { lit(" Value"); } lit(" name=\"UP\""); if k || k { lit(" "); esc(y); } lit("></cite>"); end(b, cite!(Value = bool!(S0.m(k)), name = "UP", { { y } } = bool!(k || k))) }
    h_17_g014(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<h2"); if v > 99 { lit(" a&quot;b"); } lit(" :bind=\"true "); esc(y); lit("\""); if k && l { lit(" frag"); } if !k { lit(" Value"); } lit("></h2>"); end(b, h2!("a\"b" = bool!(v > 99), ":bind" = classes!(2 == 3 || 4 == 4, (|| y)()), frag = bool!(k && l), Value = bool!(!k))) }
    h_17_g015(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<bdi"); if v == 7 || k { lit(" match"); } lit(" "); esc(x); lit("=\""); esc(x); lit(" 007 "); lit(if k { "true" } else { "false" }); lit(" "); esc(x); esc(x); lit("\"></bdi>"); end(b, bdi!(r#match = bool!(v == 7 || k), S0.m(x) = classes!(*&x, match 0 { _ => "007" }, (k), iter!("", [x, (x)])))) }
    h_17_g016(b) { let x = t(1); let k = bool_(); lit("<body"); if k { lit(" buffer"); } lit(" href=\"1.5\"></body>"); end(b, body!(buffer = bool!({ k }), href = 1.5, lang = bool!({ false }))) }
    h_17_g017(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<code title"); if k { lit(" hx-get"); } lit("></code>"); end(b, code!(div = bool!(({ (false) })), title = bool!((true)), S0.f = bool!(({ (false) })), "hx-get" = bool!((|| k)()))) }
    h_17_g018(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<del"); if !k { lit(" yield"); } if k || k { lit(" 7"); } lit("></del>"); end(b, del!(r#yield = bool!(k ^ true), 7 = bool!(k || k))) }
    h_17_g019(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<details"); if k || l { lit(" dyn"); } lit(" "); esc(x); lit("=\";\" v-on:a.b></details>"); end(b, details!(r#dyn = bool!(k || l), { x } = if true { ";" } else { ";" }, "v-on:a.b" = bool!((true)))) }
    h_17_g020(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<dd bool=\"2\""); if k { lit(" hx-get"); } if k { lit(" onclick"); } lit("></dd>"); end(b, dd!(idf(y) = bool!(({ (false) })), bool = 10 % 4, "hx-get" = bool!(!!k), onclick = bool!((k)))) }
    h_17_g021(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<a"); if k { lit(" del"); } lit(" a&quot;b=\""); if k { esc(x); } lit("\"></a>"); end(b, a!(del = bool!(!!k), "a\"b" = if idb(k) { Some(x) } else { None })) }
    h_17_g022(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<h4"); if k { lit(" del"); } lit(" q&#39;&lt;=\""); esc(x); lit("\""); if k && k { lit(" async"); } lit("></h4>"); end(b, h4!(del = bool!(k), "q'<" = x, r#async = bool!(k && k))) }
    h_17_g023(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<dd"); if k { lit(" use"); } lit(" .prop=\""); esc(x); lit(" "); if k { esc(y); } lit("\""); if !k { lit(" t1"); } if k { lit(" _u"); } lit("></dd>"); end(b, dd!(r#use = bool!(idb(k)), ".prop" = classes!('q: { break 'q x }, if (|| k)() { Some(y) } else { None }), t1 = bool!(!k), _u = bool!(k))) }
    h_17_g024(b) { let y = t(1); let k = bool_(); lit("<caption"); if k { lit(" onclick"); } lit(" frag=\""); esc(y); lit("\"></caption>"); end(b, caption!(onclick = bool!(S0.m(k)), frag = P0 { a: "other", b: y }.b)) }
    h_17_g025(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<a"); if k { lit(" data-x"); } lit(" "); esc(x); lit("=\""); if k { esc(x); } lit("\""); if k { lit(" "); esc(x); } lit("></a>"); end(b, a!("data-x" = bool!(k), [x][0] = if !!k { Some(x) } else { None }, { { x } } = bool!(idb(k)))) }
    h_17_g026(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<h5"); if k && l { lit(" "); esc(x); } lit(" x:y=\"\""); if k && l { lit(" title"); } if k { lit(" loop"); } lit("></h5>"); end(b, h5!(Some(x) = bool!(k && l), "x:y" = classes!(), title = bool!(k && l), r#loop = bool!(!!k))) }
    h_17_g027(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<h6"); if k { lit(" buffer"); } lit(" @click=\""); lit(if !k { "true" } else { "false" }); lit("\"></h6>"); end(b, h6!(buffer = bool!((|| k)()), "@click" = !k)) }
    h_17_g028(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<blockquote "); esc(y); lit(" buffer=\"\u{2028}\""); if k { lit(" n0"); } lit("></blockquote>"); end(b, blockquote!(idm!(y) = bool!((true)), buffer = concat!("\u{2028}", ""), NM[0] = bool!(!!k))) }
    h_17_g029(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<h2"); if k { lit(" Value"); } lit(" @click=\"3 \u{feff} "); esc(x); lit("\""); if k { lit(" "); esc(y); } if k { lit(" "); esc(x); } lit("></h2>"); end(b, h2!(Value = bool!(!!k), "@click" = classes!(1 + 2, "\u{feff}", x), idf(y) = bool!((|| k)()), [x][0] = bool!((k)))) }
    h_17_g030(b) { let x = t(1); let k = bool_(); lit("<h1"); if k { lit(" Value"); } lit(" id=\""); if k { esc(x); esc(x); esc(x); } lit("\"></h1>"); end(b, h1!(Value = bool!((|| k)()), id = frag_match!(if { k } { frag!([x, "other"][0], *&x, (|| loop { break (x) })()) }))) }
    h_17_g031(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<em"); if k { lit(" del"); } lit(" "); esc(x); lit("=\"-\" blk></em>"); end(b, em!(del = bool!(k), [x][0] = ("-"), { "blk" } = bool!({ true }))) }
    h_17_g032(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<dt id "); esc(y); lit("=\""); lit(if k { "true" } else { "false" }); lit("\""); if k { lit(" "); esc(x); } if v > 99 { lit(" "); esc(x); } lit("></dt>"); end(b, dt!(id = bool!((true)), { let q = y; q } = !!k, { { x } } = bool!(S0.m(k)), [x][0] = bool!(v > 99))) }
    h_17_g033(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<code"); if k { lit(" static"); } lit(" t1=\""); esc(y); lit(" "); esc(x); lit("\"></code>"); end(b, code!(r#static = bool!(S0.m(k)), t1 = classes!(({ let q = y; q }), W0(x)))) }
    h_17_g034(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<colgroup"); if k { lit(" data_x"); } lit(" del=\""); if k {  } else { esc(x); } lit(" long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt;\" wrap></colgroup>"); end(b, colgroup!(data_x = bool!(!!k), del = classes!(frag_match!(if idb(k) { () } else { core::convert::identity::<&str>(x) }), idf("long text that goes on and on & on, past thirty two bytes <i>")), (("wrap")) = bool!((true)))) }
    h_17_g035(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<code"); if k { lit(" "); esc(x); } lit(" "); esc(x); lit("=\"\""); if !k { lit(" onclick"); } lit("></code>"); end(b, code!(S0.m(x) = bool!(k), { x } = classes!(()), "q'<" = bool!(false), onclick = bool!(k ^ true))) }
    h_17_g036(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<body"); if k { lit(" data-x"); } if k { lit(" q&#39;&lt;"); } lit("></body>"); end(b, body!("data-x" = bool!((|| k)()), "q'<" = bool!(!!k))) }
    h_17_g037(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<dialog"); if k { lit(" a&quot;b"); } lit(" href=\"q&quot;q\""); if !k { lit(" t1"); } lit("></dialog>"); end(b, dialog!("a\"b" = bool!(idb(k)), href = if true { r#"q"q"# } else { r#"q"q"# }, t1 = bool!(!k))) }
    h_17_g038(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<cite"); if k { lit(" x"); } lit(" async=\"["); esc(x); lit("]\""); if k { lit(" "); esc(x); } if k { lit(" title"); } lit("></cite>"); end(b, cite!(x = bool!(k), r#async = format_args!("[{}]", x), idf(x) = bool!(k), title = bool!(k))) }
    h_17_g039(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<figcaption"); if k { lit(" x:y"); } lit(" "); esc(y); lit("=\""); if k { esc(y); } lit(" ["); esc(x); lit("]\"></figcaption>"); end(b, figcaption!("x:y" = bool!((|| k)()), idm!(y) = classes!{if S0.m(k) { Some(y) } else { None }, format_args!("[{}]", x)})) }
    h_17_g040(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<datalist"); if k { lit(" style"); } if k { lit(" q&#39;&lt;"); } lit(" :bind></datalist>"); end(b, datalist!(style = bool!((k)), "q'<" = bool!({ k }), ":bind" = bool!((true)))) }
    h_17_g041(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<aside"); if !k { lit(" "); esc(y); } lit(" "); esc(x); lit("=\"\""); if k { lit(" Value"); } if k { lit(" "); esc(x); } lit("></aside>"); end(b, aside!({ y } = bool!(!k), Some(x) = classes![], Value = bool!((k)), S0.m(x) = bool!(S0.m(k)))) }
    h_17_g042(b) { let k = bool_(); let l = bool_(); lit("<dialog"); if k { lit(" @click"); } if k { lit(" ref"); } lit("></dialog>"); end(b, dialog!("@click" = bool!(idb(k)), r#ref = bool!((|| k)()))) }
    h_17_g043(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<dd"); if k { lit(" q&#39;&lt;"); } lit(" x=\""); lit(x); lit("\""); if k { lit(" :bind"); } lit("></dd>"); end(b, dd!("q'<" = bool!({ k }), x = raw!(x), ":bind" = bool!(k))) }
    h_17_g044(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<fieldset"); if k || k { lit(" "); esc(x); } lit(" x=\"\" fn"); if k || l { lit(" div"); } lit("></fieldset>"); end(b, fieldset!(idm!(x) = bool!(k || k), x = Some(()), r#fn = bool!((true)), div = bool!(k || l))) }
    h_17_g045(b) { let x = t(1); lit("<figcaption "); esc(x); lit("=\"3\"></figcaption>"); end(b, figcaption!(r#dyn = bool!(false), { x } = [1, 2, 3].len())) }
    h_17_g046(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<address :bind=\""); lit(x); lit(" "); if k { esc(x); } else { esc(x); } lit("\""); if !k { lit(" fn"); } lit("></address>"); end(b, address!(t1 = bool!(false), ":bind" = classes!(laby::raw!(x), if S0.m(k) { x } else { x }), r#fn = bool!(k ^ true))) }
    h_17_g047(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<cite"); if k { lit(" lang"); } lit(" "); esc(x); lit("=\""); esc(x); lit("\""); if k { lit(" async"); } lit(" .prop=\""); if k { lit("\u{1f468}\u{200d}\u{1f469}"); } else { lit("<col"); if k { lit(" lang"); } lit(">"); } lit(" -5\"></cite>"); end(b, cite!(lang = bool!(S0.m(k)), idm!(x) = x, r#async = bool!(!!k), ".prop" = classes![frag_match!(if idb(k) { if true { "\u{1f468}\u{200d}\u{1f469}" } else { "\u{1f468}\u{200d}\u{1f469}" } } else { col!(lang = bool!(k)) }), -5])) }
    h_17_g048(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<body title id=\""); if !k { esc(x); } else { esc(y); } lit(" "); lit_dec(v as u32); lit("\"></body>"); end(b, body!(title = bool!((true)), id = classes!{("other", if !k { P0 { a: "other", b: x }.b } else { y }).1, v})) }
    h_17_g049(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<audio"); if k { lit(" match"); } if k || k { lit(" id"); } lit("></audio>"); end(b, audio!(r#match = bool!(!!k), Some(y) = bool!(({ (false) })), id = bool!(k || k))) }
    h_17_g050(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<blockquote"); if k { lit(" use"); } lit(" a1"); if k { lit(" f0"); } if k { lit(" @click"); } lit("></blockquote>"); end(b, blockquote!(r#use = bool!(!!k), a1 = bool!((true)), S0.f = bool!(!!k), "@click" = bool!(k))) }
    h_17_g051(b) { let v = u8_(); let k = bool_(); lit("<code"); if k { lit(" @click"); } lit(" value=\""); lit(if k || k { "true" } else { "false" }); lit("\"></code>"); end(b, code!("@click" = bool!(!!k), value = classes![(k || k)])) }
    h_17_g052(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<dialog"); if !k { lit(" x:y"); } lit(" href=\""); esc(x); lit("\""); if k { lit(" "); esc(x); } lit("></dialog>"); end(b, dialog!("x:y" = bool!(!k), href = (|| (|| x)())(), Some(x) = bool!(S0.m(k)))) }
    h_17_g053(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<blockquote"); if k { lit(" a&quot;b"); } if k { lit(" lang"); } if k { lit(" loop"); } if k { lit(" yield"); } lit("></blockquote>"); end(b, blockquote!("a\"b" = bool!({ k }), lang = bool!(!!k), r#loop = bool!(k), r#yield = bool!({ k }))) }
    h_17_g054(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<code"); if !k { lit(" "); esc(y); } lit(" "); esc(y); lit("=\"q&quot;q\"></code>"); end(b, code!(idf(y) = bool!(!k), idm!(y) = r#"q"q"#)) }
    h_17_g055(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<blockquote :bind"); if !k { lit(" .prop"); } lit("></blockquote>"); end(b, blockquote!(r#use = bool!(({ (false) })), ":bind" = bool!(true), ".prop" = bool!(!k))) }
    h_17_g056(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<canvas"); if k { lit(" in"); } lit(" "); esc(y); lit("=\"1.5\""); if v < 10 { lit(" wrap"); } if k { lit(" @click"); } lit("></canvas>"); end(b, canvas!(r#in = bool!(k), { { y } } = 1.5, (("wrap")) = bool!(matches!(v, 0..=9)), "@click" = bool!((k)))) }
    h_17_g057(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<caption "); esc(y); lit("=\"\u{2028}\"></caption>"); end(b, caption!(a1 = bool!(false), [y][0] = ({ ("\u{2028}") }))) }
    h_17_g058(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<button dyn q&#39;&lt;=\""); if k { esc(y); } else { esc(y); } lit("\""); if k && k { lit(" :bind"); } lit("></button>"); end(b, button!(r#dyn = bool!(true), "q'<" = if idb(k) { y } else { y }, ":bind" = bool!(k && k))) }
    h_17_g059(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<em"); if k { lit(" a"); } if v == 7 || k { lit(" title"); } if k { lit(" lang"); } if k { lit(" bool"); } lit("></em>"); end(b, em!("a" = bool!(S0.m(k)), title = bool!(v == 7 || k), lang = bool!(k), bool = bool!(k))) }
    h_17_g060(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<bdi"); if !k { lit(" aria-label"); } lit(" hx-get=\""); esc(x); lit("\"></bdi>"); end(b, bdi!("aria-label" = bool!(k ^ true), "hx-get" = [x, "other"][0])) }
    h_17_g061(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<h1"); if v > 99 { lit(" buffer"); } lit(" ref=\""); lit(if k || k { "true" } else { "false" }); lit("\" frag=\""); if k { lit("<link hx-get=\""); esc(x); lit("\">"); } else { lit("<hr q a&quot;b=\""); lit(if k { "true" } else { "false" }); lit(" "); esc(x); lit(" \" onclick=\" \">"); } lit("\"></h1>"); end(b, h1!(buffer = bool!(v > 99), r#ref = (k || k), frag = frag_match!(if S0.m(k) { link!("hx-get" = x as &str) } else { hr!(nm("q") = bool!(true), "a\"b" = classes!(k, S0.m(x), ""), onclick = classes!(frag!(frag!()), frag!())) }))) }
    h_17_g062(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<footer"); if !k { lit(" title"); } lit(" del=\""); esc(x); lit("\""); if k || k { lit(" true_"); } if k { lit(" Value"); } lit("></footer>"); end(b, footer!(title = bool!(k ^ true), del = x, r#true_ = bool!(k || k), Value = bool!(idb(k)))) }
    h_17_g063(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<bdi "); esc(y); lit("=\""); if v == 0 { lit("<col"); if k { lit(" bool"); } lit(">"); } else if v < 10 { lit("0123456789abcdef&lt;"); } else { lit("many"); } lit("\" a&quot;b=\"\"></bdi>"); end(b, bdi!({ { y } } = frag_match!(match v { 0 => col!(bool = bool!(k)), 1..=9 => loop { break "0123456789abcdef<" }, _ => "many" }), "a\"b" = classes!(loop { break "" },))) }
    h_17_g064(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<dd"); if !k { lit(" Value"); } if k { lit(" v-on:a.b"); } if k { lit(" v-on:a.b"); } lit("></dd>"); end(b, dd!(Value = bool!(!k), "v-on:a.b" = bool!(!!k), "v-on:a.b" = bool!(k))) }
    h_17_g065(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<aside"); if !k { lit(" 7"); } lit(" loop=\""); esc(x); lit(" say &quot;hi&quot;  -170141183460469231731687303715884105728\""); if k { lit(" 7"); } lit(" é=\""); if k { lit("<base _u style=\""); esc(y); lit("\" "); esc(x); lit("=\""); esc(x); lit("\">"); } lit("\"></aside>"); end(b, aside!(7 = bool!(k ^ true), r#loop = classes!(*&x, loop { break "say \"hi\"" }, frag!(frag!()), i128::MIN,), mk::SEV = bool!((k)), "é" = frag_match!(if k { base!{_u = bool!((true)), style = Some(y).unwrap(), S0.m(x) = idf(x)} }))) }
    h_17_g066(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<details"); if k { lit(" é"); } lit(" :bind=\""); esc(x); lit("\"></details>"); end(b, details!("é" = bool!((|| k)()), ":bind" = ("other", x).1)) }
    h_17_g067(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<audio"); if k { lit(" p"); } lit(" a&quot;b=\"44\""); if k { lit(" q&#39;&lt;"); } lit("></audio>"); end(b, audio!(p = bool!(!!k), "a\"b" = 300i32 as u8, "q'<" = bool!((|| k)()))) }
    h_17_g068(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<code"); if !k { lit(" fn"); } lit(" "); esc(y); lit("=\"\""); if !k { lit(" blk"); } lit(" onclick></code>"); end(b, code!(r#fn = bool!(!k), (y, 1).0 = Some(()), { "blk" } = bool!(!k), onclick = bool!(true))) }
    h_17_g069(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<code"); if k { lit(" @click"); } lit(" "); esc(x); lit("=\"=\"></code>"); end(b, code!("@click" = bool!(!!k), { x } = match 0 { _ => "=" })) }
    h_17_g070(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<fieldset"); if k { lit(" @click"); } lit(" s=\""); esc(y); lit("\""); if k { lit(" ref"); } lit("></fieldset>"); end(b, fieldset!("@click" = bool!({ k }), S0.m("s") = y, r#ref = bool!(!!k))) }
    h_17_g071(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<body buffer"); if k || k { lit(" class"); } lit("></body>"); end(b, body!({ let q = x; q } = bool!(({ (false) })), buffer = bool!({ true }), { let q = x; q } = bool!(false), class = bool!(k || k))) }
    h_17_g072(b) { let k = bool_(); lit("<data"); if k { lit(" v-on:a.b"); } lit(" style=\"\"></data>"); end(b, data!("v-on:a.b" = bool!((|| k)()), style = classes![])) }
    h_17_g073(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<details x:y=\""); if k { lit("\u{feff}"); } else if k { lit("<embed"); if k { lit(" yield"); } lit(">"); } else { lit("0"); } lit(" \\\" style=\"  "); esc(x); lit(" "); esc(x); lit("\""); if k { lit(" name"); } lit("></details>"); end(b, details!("x:y" = classes!(frag_match!(if { k } { frag!(frag!(), ({ ("\u{feff}") })) } else if !!k { embed!(r#yield = bool!({ k })) } else { 0 }), { "\\" }), style = classes!{{ "a"; }, (), x, 'q: { break 'q x },}, name = bool!(idb(k)))) }
    h_17_g074(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<code"); if k { lit(" "); esc(y); } lit(" v-on:a.b=\""); lit_dec(v as u32); lit(" "); esc(x); lit("\""); if !k { lit(" buffer"); } lit("></code>"); end(b, code!({ { y } } = bool!(!!k), "v-on:a.b" = classes!(S0.m(v), Some(x)), buffer = bool!(k ^ true), mk::SEV = bool!({ false }))) }
    h_17_g075(b) { let x = t(1); let k = bool_(); lit("<footer"); if k { lit(" match"); } if k { lit(" @click"); } lit("></footer>"); end(b, footer!(r#match = bool!({ k }), "@click" = bool!(S0.m(k)))) }
    h_17_g076(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<address data-id0=\""); if k { lit("<track value=\""); if v == 0 { lit("<wbr"); if k { lit(" hx-get"); } lit(" aria-label=\""); if !k { esc(x); } lit("\">"); } else if v < 10 { lit("<br "); esc(x); lit("=\"1.50\">"); } else { lit("many"); } lit("\" x=\""); if k { esc(y); } lit("\" 7=\"97\">"); } lit("\""); if v < 10 { lit(" title"); } lit(" "); esc(x); lit("></address>"); end(b, address!((id0) = classes!(frag_match!(if idb(k) { track!(value = frag_match!(match v { 0 => wbr!("hx-get" = bool!((|| k)()), "aria-label" = if !k { Some(x) } else { None }), 1..=9 => br!({ x } = idf("1.50"),), _ => "many" }), x = if S0.m(k) { Some(y) } else { None }, mk::SEV = { b'a' }) })), title = bool!(matches!(v, 0..=9)), Some(x) = bool!((true)))) }
    h_17_g077(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<bdo"); if !k { lit(" div"); } lit(" "); esc(y); lit("=\"long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt;\""); if k { lit(" "); esc(x); } lit(" "); esc(x); lit("></bdo>"); end(b, bdo!(div = bool!(!k), { let q = y; q } = if true { "long text that goes on and on & on, past thirty two bytes <i>" } else { "long text that goes on and on & on, past thirty two bytes <i>" }, (x, 1).0 = bool!(!!k), S0.m(x) = bool!({ true }))) }
    h_17_g078(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<div "); esc(y); if k { lit(" "); esc(x); } lit("></div>"); end(b, div!({ let q = y; q } = bool!(true), [x][0] = bool!((|| k)()))) }
    h_17_g079(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<audio"); if k { lit(" "); esc(x); } lit(" "); esc(x); lit("=\""); lit(if k { "true" } else { "false" }); lit("\""); if !k { lit(" name"); } lit("></audio>"); end(b, audio!({ let q = x; q } = bool!((k)), S0.m(x) = classes!{({ k })}, name = bool!(k ^ true))) }
    h_17_g080(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<caption"); if k && k { lit(" true_"); } lit(" as></caption>"); end(b, caption!(r#loop = bool!(false), r#true_ = bool!(k && k), r#as = bool!((true)), Value = bool!((false)))) }
    h_17_g081(b) { let x = t(1); let k = bool_(); lit("<footer"); if k { lit(" é"); } if k || k { lit(" "); esc(x); } lit("></footer>"); end(b, footer!("é" = bool!((|| k)()), { let q = x; q } = bool!(k || k))) }
    h_17_g082(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<b"); if k { lit(" true_"); } lit(" class=\"r#&quot;\""); if k { lit(" "); esc(x); } lit("></b>"); end(b, b!(r#true_ = bool!(k), class = ("r#\""), [x][0] = bool!(k))) }
    h_17_g083(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<form"); if !k { lit(" @click"); } lit(" q&#39;&lt;=\"\""); if !k { lit(" buffer"); } if k { lit(" lang"); } lit("></form>"); end(b, form!("@click" = bool!(k ^ true), "q'<" = classes!(), buffer = bool!(k ^ true), lang = bool!(k))) }
    h_17_g084(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<cite"); if k { lit(" match"); } lit(" q&#39;&lt;=\""); esc(y); lit(" "); esc(x); lit(", "); esc(x); lit("\"></cite>"); end(b, cite!(r#match = bool!(idb(k)), "q'<" = classes!{[core::convert::identity::<&str>(core::convert::identity::<&str>(y)), "other"][0], iter!(", ", [S0.m(x), &x[..]])})) }
    h_17_g085(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<cite static=\""); if k { esc(x); } else { esc(x); } lit(" "); if k { esc(x); } lit("\" a&quot;b=\""); if k { lit("<meta"); if v > 99 { lit(" &lt;"); } lit(" aria-label=\""); esc(y); lit("\">"); } else if !k { if k { esc(y); } } else { lit("0"); } lit("\"></cite>"); end(b, cite!(style = bool!((false)), r#static = classes!(match k { true => x, false => x }, if !!k { Some(x) } else { None }), "a\"b" = frag_match!(if (k) { meta!('<' = bool!(v > 99), "aria-label" = (move |q: &'static str| q)(y)) } else if k ^ true { if idb(k) { Some(y) } else { None } } else { 0 }))) }
    h_17_g086(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<cite"); if k && k { lit(" Value"); } if k && k { lit(" n0"); } if !k { lit(" for"); } if k { lit(" "); esc(y); } lit("></cite>"); end(b, cite!(Value = bool!(k && k), NM[0] = bool!(k && k), r#for = bool!(!k), idm!(y) = bool!(!!k))) }
    h_17_g087(b) { let x = t(1); let k = bool_(); lit("<h5"); if k { lit(" value"); } lit(" lang=\""); esc(x); lit("\"></h5>"); end(b, h5!(value = bool!(k), lang = unsafe { idu(Some(x).unwrap()) })) }
    h_17_g088(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<dialog"); if k && k { lit(" use"); } lit(" value=\"\"></dialog>"); end(b, dialog!(r#use = bool!(k && k), value = classes!(), idm!(x) = bool!(false))) }
    h_17_g089(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<h5"); if k || l { lit(" "); esc(x); } lit(" onclick=\""); if k { esc(x); } else { esc(y); } lit("\""); if k { lit(" bool"); } lit("></h5>"); end(b, h5!([x][0] = bool!(k || l), onclick = core::convert::identity::<&str>(match k { true => { x }, false => y }), bool = bool!(({ (false) })), bool = bool!((|| k)()))) }
    h_17_g090(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<h3"); if k { lit(" del"); } lit(" onclick=\""); esc(y); lit(", "); esc(x); lit("\"></h3>"); end(b, h3!(del = bool!((|| k)()), onclick = iter!(", ", [y, ("other", x).1]))) }
    h_17_g091(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<h3"); if !k { lit(" x"); } lit(" name=\""); lit(if k { "true" } else { "false" }); lit("\""); if !k { lit(" aria-label"); } lit("></h3>"); end(b, h3!(x = bool!(!k), name = k, "aria-label" = bool!(!k))) }
    h_17_g092(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<a"); if k || k { lit(" Value"); } lit(" fn=\""); esc(x); lit("\""); if k { lit(" "); esc(x); } lit(" "); esc(y); lit("></a>"); end(b, a!(Value = bool!(k || k), r#fn = ({ let q = x; q }), idf(x) = bool!(k), idm!(y) = bool!({ true }))) }
    h_17_g093(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<address"); if k && l { lit(" in"); } lit(" "); esc(y); lit("=\""); esc(x); lit("\"></address>"); end(b, address!(r#in = bool!(k && l), idf(y) = ((move |q: &'static str| q)(x)))) }
    h_17_g094(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<blockquote"); if k { lit(" a1"); } lit(" v-on:a.b=\""); esc(x); lit(" ["); esc(x); lit("] ["); esc(x); lit("] 12\""); if v == 7 || k { lit(" match"); } lit("></blockquote>"); end(b, blockquote!(a1 = bool!(!!k), "v-on:a.b" = classes!{({ let q = x; q }), format_args!("[{}]", x), format_args!("[{}]", x), 12i64}, r#match = bool!(v == 7 || k))) }
    h_17_g095(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<head"); if !k { lit(" "); esc(y); } if k { lit(" frag"); } if k { lit(" onclick"); } lit("></head>"); end(b, head!(id = bool!({ false }), { let q = y; q } = bool!(k ^ true), frag = bool!((k)), onclick = bool!((|| k)()))) }
    h_17_g096(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<dd "); esc(y); lit(" "); esc(x); lit("=\""); if k { esc(x); } lit("   \u{feff}\"></dd>"); end(b, dd!((y, 1).0 = bool!(true), Some(x) = classes!(if !!k { Some(x) } else { None }, classes!(), frag!(frag!()), concat!("\u{feff}", "")))) }
    h_17_g097(b) { let x = t(1); let k = bool_(); let l = bool_(); lit("<body"); if k { lit(" fn"); } lit(" ref=\"\u{1f468}\u{200d}\u{1f469}\""); if k { lit(" "); esc(x); } lit("></body>"); end(b, body!(r#fn = bool!(S0.m(k)), r#ref = "\u{1f468}\u{200d}\u{1f469}", [x][0] = bool!((|| k)()))) }
    h_17_g098(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<del "); esc(x); lit("=\""); if v == 0 { esc(x); } else if v < 10 { lit("<wbr bool=\""); esc(x); lit(" = {{}} "); esc(x); lit("\" hx-get=\""); esc(x); lit("\">"); } else { lit("many"); } lit("\" "); esc(y); lit("=\" \" div"); if v > 99 { lit(" t1"); } lit("></del>"); end(b, del!({ x } = frag_match!(match v { 0 => String::from(x), 1..=9 => wbr!(class = bool!(({ (false) })), bool = classes!(unsafe { idu(x) }, concat!("=", ""), if true { "{{}}" } else { "{{}}" }, P0 { a: "other", b: [x, "other"][0] }.b,), "hx-get" = x), _ => "many" }), Some(y) = classes![None::<&str>, ()], div = bool!({ true }), t1 = bool!(v > 99))) }
    h_17_g099(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<h6"); if k || l { lit(" name"); } lit(" as=\""); esc(y); lit(" 3 "); if k || k { esc(x); } lit(" \"></h6>"); end(b, h6!(name = bool!(k || l), r#as = classes![({ let q = Some(y).unwrap(); q }), 1 + 2, if k || k { Some(x) } else { None }, {}])) }
}
