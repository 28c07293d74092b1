//! void elements among others (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{string::String, format, vec, vec::Vec};
fn idf<T>(v: T) -> T { v }
fn idb(v: bool) -> bool { v }
unsafe fn idu<T>(v: T) -> T { v }
struct S0s { f: &'static str }
static S0: S0s = S0s { f: "f0" };
impl S0s { fn m<T>(&self, v: T) -> T { v } }
struct P0<A, B> { a: A, b: B }
struct W0<T>(T);
impl<T: Render> Render for W0<T> { fn render(self, buffer: &mut Buffer) { self.0.render(buffer) } }
const K7: u8 = 7;
mod mk { pub const SEV: u8 = 7; }
const NM: [&str; 2] = ["n0", "n1"];
fn nm(s: &'static str) -> &'static str { s }
#[allow(non_upper_case_globals)] const id0: &str = "data-id0";
macro_rules! idm { ($e:expr) => { $e } }
macro_rules! const0 { ($e:expr) => {{ const C0: &str = $e; C0 }} }
#[laby] fn cmp0(#[rest] r: impl Render) -> impl Render { section!(r) }
#[laby] fn cmp1(a: impl Render, #[default("dflt")] b: impl Render) -> impl Render { frag!("{", a, "|", b, "}") }
#[laby] fn cmp2(title: impl Render, #[rest] body: impl Render) -> impl Render { frag!(h1!(title), body) }
case! {
    h_15_g000(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p><area loop=\"abc\" a1=\"&quot;\" name=\""); if k && l { esc(x); } lit("\">"); if k { lit("<param n0=\""); esc(y); lit("\" é=\""); lit(x); lit("\">"); } else if k { lit("<meta"); if k { lit(" id"); } lit(" lang=\""); esc(x); lit("\" lang=\""); esc(x); lit(" "); if k { esc(y); } lit("\">"); } else { lit("0"); } lit("<hr "); esc(y); lit("=\""); lit(y); lit(" "); esc(x); lit("\"></p>"); end(b, p!(area!(r#loop = "abc", a1 = ("\""), name = if k && l { Some(x) } else { None }), frag_match!(if k { param!{NM[0] = [y, "other"][0], "é" = raw!(x)} } else if idb(k) { meta!(id = bool!(k), lang = x, lang = classes!(core::convert::identity::<&str>(x), if k { Some(y) } else { None })) } else { 0 }), hr!({ let q = y; q } = classes!{raw!(y), *&x}))) }
    h_15_g001(b) { let y = t(1); lit("<base div=\"&amp;amp;\" ref=\"it&#39;s\" yield=\"["); esc(y); lit("]\">"); end(b, base!(div = ({ ("&amp;") }), r#ref = idf("it's"), r#yield = format_args!("[{}]", y))) }
    h_15_g002(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<p><br frag=\""); esc(x); lit("\">"); esc(x); lit("<input "); esc(y); lit("=\""); esc(x); lit("\" bool=\"data-x "); if k { esc(x); } lit(" 255 12\"></p>"); end(b, p!(br!(frag = Some(x)), [x, "other"][0], input![Some(y) = x, bool = classes![concat!("data-x", ""), if S0.m(k) { Some(x) } else { None }, !0u8, match 0 { _ => 12i64 },]])) }
    h_15_g003(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<col href=\""); lit_dec(v as u32); lit("\" static=\"["); esc(x); lit("]\""); if k { lit(" title"); } lit(">"); end(b, col!(href = v as u32, r#static = format_args!("[{}]", x), title = bool!(k))) }
    h_15_g004(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p><embed"); if !k { lit(" lang"); } if k && l { lit(" type"); } lit(">\u{1}<meta in=\""); if k { esc(x); } else { esc(y); } lit(", "); esc(x); lit("\" class=\""); lit(x); lit("\"></p>"); end(b, p!(embed!(lang = bool!(!k), r#type = bool!(k && l)), ({ ("\u{1}") }), meta!(r#in = iter!(", ", [match k { true => x, false => y }, idm!(x)]), class = raw!({ x })))) }
    h_15_g005(b) { let y = t(1); let k = bool_(); lit("<hr"); if k && k { lit(" x:y"); } lit(" static=\""); esc(y); lit("\">"); end(b, hr!{"x:y" = bool!(k && k), r#static = classes!{idm!(y)},}) }
    h_15_g006(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p><img "); esc(y); lit("=\"nl\n\" Value=\""); if k { esc(y); } else { esc(y); } lit("\">"); if k { esc(x); } else { esc(x); } lit("<source value=\""); esc(x); lit(" "); if k { lit("\r"); } lit("\" t1=\"["); esc(x); lit("]\"></p>"); end(b, p!(img!{idf(y) = { "nl\n" }, Value = match k { true => y, false => y }}, if k { x } else { x }, source!(value = classes!{x, frag_match!(if idb(k) { frag!("\r") })}, t1 = format_args!("[{}]", x)))) }
    h_15_g007(b) { let y = t(1); let k = bool_(); let l = bool_(); lit("<input "); esc(y); lit("=\""); esc(y); lit("\""); if k { lit(" x:y"); } lit(">"); end(b, input!({ { y } } = if let Some(q) = Some(y) { q } else { "no" }, "x:y" = bool!(!!k))) }
    h_15_g008(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p><link fn=\""); if k || k { esc(x); esc(x); } else if k { lit("<wbr"); if k { lit(" href"); } lit(">"); } else { lit("0"); } lit("\""); if k { lit(" p"); } lit(" static=\""); esc(x); lit("\">"); esc(x); lit("<wbr"); if k { lit(" href"); } lit(" yield=\""); lit(y); lit("\" data-id0=\"\u{1f468}\u{200d}\u{1f469}\"></p>"); end(b, p!(link!(r#fn = classes!(frag_match!(if k || k { frag![iter!([x, [x, "other"][0]])] } else if (|| k)() { wbr!(href = bool!(idb(k))) } else { 0 })), p = bool!((k)), r#static = unsafe { idu(x) }), { x }, wbr!(href = bool!(!!k), r#yield = raw!(y), (id0) = loop { break "\u{1f468}\u{200d}\u{1f469}" }))) }
    h_15_g009(b) { let x = t(1); let y = t(1); lit("<meta é=\""); esc(x); lit("\" name=\""); lit(y); lit("\" "); esc(x); lit("=\"\">"); end(b, meta!("é" = x, name = laby::raw!(y), idm!(x) = frag!(),)) }
    h_15_g010(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p><param"); if k { lit(" type"); } lit(" "); esc(y); lit("=\"7\" style=\"["); esc(x); lit("]"); if k { lit("\u{200b}"); } else if k { lit("<hr "); esc(y); lit("=\""); if k { lit_dec(v as u32); } else { lit("<col static=\""); esc(y); lit("\">"); } lit("\" "); esc(x); lit("=\""); lit_dec(v as u32); lit("\">"); } else { lit("0"); } lit_dec(v as u32); lit("\">"); lit(if k && l { "true" } else { "false" }); lit("<base></p>"); end(b, p!(param!(r#type = bool!((|| k)()), [y][0] = K7, style = frag!(format_args!("[{}]", x), frag_match!(if !!k { { "\u{200b}" } } else if S0.m(k) { hr!(S0.m(y) = frag_match!(if k { { v } } else { col!(r#static = idf(y)) }), idm!(x) = v as u32) } else { 0 }), S0.m(v))), (k && l), base!())) }
    h_15_g011(b) { let x = t(1); let k = bool_(); lit("<source data-x=\""); esc(x); lit("\""); if k { lit(" s"); } lit(">"); end(b, source!("data-x" = classes![loop { break (x) }], S0.m("s") = bool!((|| k)()))) }
    h_15_g012(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p><track frag>"); lit(if k || k { "true" } else { "false" }); lit("<col"); if k { lit(" in"); } lit(" "); esc(x); lit("=\""); if !k { esc(x); } lit("\" style=\"\"></p>"); end(b, p!(track![frag = bool!(true)], (k || k), col!{r#in = bool!(idb(k)), Some(x) = if k ^ true { Some(x) } else { None }, style = { (); }})) }
    h_15_g013(b) { let y = t(1); let k = bool_(); let l = bool_(); lit("<wbr a&quot;b=\""); if !k { esc(y); } lit("\" title=\"=\" q&#39;&lt;=\"\">"); end(b, wbr!["a\"b" = if k ^ true { Some(y) } else { None }, title = concat!("=", ""), "q'<" = classes!()]) }
    h_15_g014(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<p><area"); if k { lit(" "); esc(x); } lit(">"); lit_dec(v as u32); lit("<hr "); esc(x); lit("=\""); esc(x); lit(", "); esc(x); lit("\" div=\""); esc(x); lit("\" style=\"``\"></p>"); end(b, p!(area!{S0.m(x) = bool!(k)}, S0.m(v), hr!(S0.m(x) = classes![iter!(", ", [&x[..], (move |q: &'static str| q)(x)]),], div = x, style = match 0 { _ => "``" }))) }
    h_15_g015(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<base a&quot;b=\""); if k || l { esc(x); } lit("\""); if k && k { lit(" "); esc(x); } lit(">"); end(b, base!("a\"b" = if k || l { Some(x) } else { None }, { let q = x; q } = bool!(k && k))) }
    h_15_g016(b) { let v = u8_(); let k = bool_(); let l = bool_(); lit("<p><br>"); if v == 0 { lit("<img a&quot;b=\"\""); if k { lit(" _u"); } lit(">"); } else if v < 10 { lit("<img style=\"3.0\">"); } else { lit("many"); } lit("<input></p>"); end(b, p!(br!(), frag_match!(match v { 0 => img!("a\"b" = classes!(), _u = bool!({ k })), 1..=9 => img![style = classes!(3f32)], _ => "many" }), input![])) }
    h_15_g017(b) { lit("<col t1=\"-\" lang=\"a\">"); end(b, col!{t1 = if true { "-" } else { "-" }, lang = loop { break "a" }}) }
    h_15_g018(b) { let x = t(1); let k = bool_(); let l = bool_(); lit("<p><embed"); if k { lit(" yield"); } lit(">"); esc(x); lit("<meta></p>"); end(b, p!(embed!(r#yield = bool!(idb(k))), ("other", x).1, meta![])) }
    h_15_g019(b) { let x = t(1); lit("<hr onclick=\""); esc(x); esc(x); esc(x); lit("\">"); end(b, hr!(onclick = frag!(idm!(x), x, core::convert::identity::<&str>(x)),)) }
    h_15_g020(b) { let x = t(1); let k = bool_(); let l = bool_(); lit("<p><img>"); esc(x); lit("<source"); if k { lit(" blk"); } if k { lit(" "); esc(x); } lit("></p>"); end(b, p!(img!(), { let q = idf; q(idm!(x)) }, source![{ "blk" } = bool!((k)), Some(x) = bool!(k)])) }
    h_15_g021(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<input onclick=\""); esc(x); lit("\" "); esc(x); lit("=\""); lit(if v == 7 || k { "true" } else { "false" }); lit("\">"); end(b, input!(onclick = x, Some(x) = (v == 7 || k))) }
    h_15_g022(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<p><link frag=\""); if k || k { esc(y); } lit("\""); if k { lit(" :bind"); } lit(">"); lit(if k || k { "true" } else { "false" }); lit("<wbr "); esc(y); lit("=\""); esc(x); lit("\" _u=\"false\" a&quot;b=\""); esc(x); lit("\"></p>"); end(b, p!(link!{frag = if k || k { Some(y) } else { None }, ":bind" = bool!((|| k)())}, (k || k), wbr!{{ { y } } = x, _u = !true, "a\"b" = ({ let q = x; q })})) }
    h_15_g023(b) { let x = t(1); let k = bool_(); let l = bool_(); lit("<meta wrap=\""); if k && l { esc(x); } else { esc(x); } lit("\" t1=\"raw\\&lt;\">"); end(b, meta!((("wrap")) = classes!(if k && l { x } else { x }), t1 = r"raw\<", (("wrap")) = bool!(false))) }
    h_15_g024(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p><param>{}<base"); if k || l { lit(" "); esc(x); } lit(" href=\""); lit(if k { "true" } else { "false" }); lit("\"></p>"); end(b, p!(param!(), ({ ("{}") }), base!{{ x } = bool!(k || l), href = k,})) }
    h_15_g025(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<source a1=\""); lit(x); esc(x); esc(x); lit("\""); if !k { lit(" x:y"); } lit(">"); end(b, source!(a1 = frag!{raw!(x), { x }, S0.m(x)}, "x:y" = bool!(!k))) }
    h_15_g026(b) { let x = t(1); let k = bool_(); lit("<p><track"); if k { lit(" "); esc(x); } lit(">"); lit(x); lit("<col></p>"); end(b, p!(track!([x][0] = bool!(k)), raw!(x), col!{})) }
    h_15_g027(b) { let v = u8_(); let k = bool_(); let l = bool_(); lit("<wbr"); if k { lit(" hx-get"); } if k { lit(" buffer"); } lit(">"); end(b, wbr!("hx-get" = bool!((|| k)()), buffer = bool!(idb(k)))) }
    h_15_g028(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p><area"); if k { lit(" in"); } lit(" "); esc(y); lit("=\""); esc(x); lit("\">"); lit_dec(v as u32); lit("<hr .prop=\""); if !k { esc(y); } else { esc(y); } lit("\"></p>"); end(b, p!(area![r#in = bool!(idb(k)), [y][0] = 'q: { break 'q x },], v, hr!(".prop" = bool!({ false }), ".prop" = classes!{if !k { y } else { y }}))) }
    h_15_g029(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<base"); if k { lit(" type"); } lit(" "); esc(y); lit("=\""); esc(y); lit("\">"); end(b, base!(r#type = bool!(k), Some(y) = Some((y)).unwrap())) }
    h_15_g030(b) { let x = t(1); lit("<p><br>255<input title=\"255\" value=\""); esc(x); lit("\"></p>"); end(b, p!(br!(), 0xff, input!(nm("q") = bool!((false)), title = !0u8, value = x))) }
    h_15_g031(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<col"); if k { lit(" "); esc(x); } if k { lit(" "); esc(y); } lit(">"); end(b, col!({ { x } } = bool!(k), { let q = y; q } = bool!(k))) }
    h_15_g032(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<p><embed lang=\"["); esc(x); lit("]\" t1=\"\">2<meta"); if v < 10 { lit(" t1"); } lit("></p>"); end(b, p!(embed!{lang = format_args!("[{}]", x), t1 = frag![]}, 10 % 4, meta!(t1 = bool!(matches!(v, 0..=9))))) }
    h_15_g033(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<hr blk=\""); esc(y); lit("\" é=\""); if k { esc(x); } else { esc(y); } esc(y); lit(if k { "true" } else { "false" }); if k { esc(x); } else { esc(x); } lit("\">"); end(b, hr!({ "blk" } = *&y, "é" = frag!(match k { true => x, false => y }, { let q = idf; q(("other", W0(y)).1) }, k, match k { true => x, false => x }))) }
    h_15_g034(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p><img value=\"<link>\">"); esc(y); lit(", "); esc(x); lit("<source"); if k && l { lit(" class"); } lit("></p>"); end(b, p!(img!(value = link!()), iter!(", ", [("other", y).1, x]), source!(class = bool!(k && l)))) }
    h_15_g035(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<input "); esc(x); lit(" "); esc(y); lit("=\""); if k { esc(x); } lit("\">"); end(b, input!{[x][0] = bool!(true), Some(y) = if k { Some(x) } else { None }}) }
    h_15_g036(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<p><link aria-label=\"\">"); if k { esc(x); } lit("<wbr "); esc(x); lit("=\""); esc(y); lit("\"></p>"); end(b, p!(link!("aria-label" = classes!()), if S0.m(k) { Some(x) } else { None }, wbr!((x, 1).0 = (|| y)()))) }
    h_15_g037(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<meta x=\""); esc(y); lit("<"); esc(x); lit("\" "); esc(x); lit("=\""); if k { esc(x); } else { esc(x); } esc(x); lit("\" del=\""); lit(if k { "true" } else { "false" }); lit("\">"); end(b, meta!(x = iter!("<", [loop { break (S0.m(y)) }, x]), { let q = x; q } = iter!("", [(move |q: &'static str| q)(match k { true => x, false => x }), { let q = idf; q(*&x) }]), del = S0.m(k))) }
    h_15_g038(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<p><param>&lt;<base q&#39;&lt;=\""); if k && k { esc(x); } lit("\" "); esc(y); lit("=\""); esc(y); lit("\"></p>"); end(b, p!(param!(), '<', base!("q'<" = if k && k { Some(x) } else { None }, [y][0] = ({ let q = y; q })))) }
    h_15_g039(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<source bool=\""); if k { esc(y); } else { esc(y); } lit(" "); esc(x); lit(" "); esc(x); lit(" 3.0\" fn=\"\">"); end(b, source!(bool = classes![match k { true => y, false => y }, idm!(x), W0(x), 3f32], r#fn = frag!{})) }
    h_15_g040(b) { lit("<p><track onclick=\"\u{ffff}\">0<col true_=\" \"></p>"); end(b, p!(track!(onclick = "\u{ffff}"), 0, col![r#true_ = classes!((), frag! {})])) }
    h_15_g041(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<wbr "); esc(y); lit("=\""); if k && k {  } else { esc(x); lit(" "); } lit("\" aria-label=\""); if k { lit("<area>"); } lit("\">"); end(b, wbr![{ { y } } = frag_match!(if k && k { { false; } } else { classes![S0.m(x), { "0123456789abcdef<"; }] }), "aria-label" = frag_match!(if (k) { area!() })]) }
    h_15_g042(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<p><area x=\"\" "); esc(x); lit("=\""); esc(x); lit("\""); if k { lit(" "); esc(y); } lit(">"); if !k { esc(x); } else { esc(x); } lit("<hr"); if k { lit(" _u"); } lit("></p>"); end(b, p!(area![x = { '\''; }, { x } = x, { let q = y; q } = bool!((|| k)())], P0 { a: "other", b: if !k { x } else { x } }.b, hr!(_u = bool!((|| k)())))) }
    h_15_g043(b) { let x = t(1); let y = t(1); lit("<base v-on:a.b=\""); esc(x); lit("\" a1=\"0123456789abcdef\" buffer=\""); esc(y); lit("\">"); end(b, base!["v-on:a.b" = (move |q: &'static str| q)(&x[..]), a1 = ("0123456789abcdef"), buffer = y]) }
    h_15_g044(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p><br dyn=\"&amp;amp;\" data-x=\""); if k { esc(x); } lit(" "); esc(y); lit("<"); esc(y); lit("\" for=\""); if v == 0 { lit("<track .prop=\""); esc(x); lit(" "); if k { esc(x); } lit("\""); if k || k { lit(" "); esc(x); } lit(" style=\""); lit(if k { "true" } else { "false" }); lit(" "); esc(x); lit("\">"); } else if v < 10 { esc(y); } else { lit("many"); } lit("\">é<input></p>"); end(b, p!(br![r#dyn = "&amp;", "data-x" = classes!(if !!k { Some(x) } else { None }, iter!("<", [idf(&y[..]), Some(y).unwrap()])), r#for = frag_match!(match v { 0 => track![".prop" = classes!({ x }, if S0.m(k) { Some(x) } else { None }), Some(x) = bool!(k || k), style = classes!(({ k }), x,)], 1..=9 => Some(y), _ => "many" })], 'é', input!())) }
    h_15_g045(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<col id=\"tab\t "); if v == 7 || k { lit("<area "); esc(y); lit("=\"&amp;amp;\" a&quot;b=\""); if v > 99 { lit("<hr title=\""); if k { esc(y); } lit("\""); if k { lit(" in"); } lit(">"); } else if k { lit(if k { "true" } else { "false" }); } else { lit("0"); } lit("\""); if !k { lit(" "); esc(x); } lit(">"); } else { lit("<source>"); } lit("\" data_x>"); end(b, col!(id = classes![concat!("tab\t", ""), frag_match!(if v == 7 || k { area!(S0.m(y) = "&amp;", "a\"b" = frag_match!(if v > 99 { hr!(title = if S0.m(k) { Some(y) } else { None }, r#in = bool!({ k }),) } else if !!k { idb(k) } else { 0 }), { { x } } = bool!(!k)) } else { source!() })], data_x = bool!((true)))) }
    h_15_g046(b) { let k = bool_(); lit("<p><embed del=\""); if k { lit("&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;"); } lit("\">3<meta></p>"); end(b, p!(embed!(del = frag_match!(if k { const0!("<<<<<<<<<<<<<<<<") })), 1 + 2, meta!())) }
    h_15_g047(b) { let x = t(1); let k = bool_(); let l = bool_(); lit("<hr"); if !k { lit(" "); esc(x); } lit(" loop=\"0123456789abcdef&lt;\">"); end(b, hr![(x, 1).0 = bool!(k ^ true), r#loop = ({ ("0123456789abcdef<") })]) }
    h_15_g048(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<p><img>"); lit(x); lit("<source async=\""); if k { esc(x); } else if k && k { lit("<hr q&#39;&lt;=\""); esc(x); lit("\">"); } else { lit("0"); } lit("\""); if k { lit(" onclick"); } lit("></p>"); end(b, p!(img!(), laby::raw!(x), source!{r#async = frag_match!(if idb(k) { Some(x).unwrap() } else if k && k { hr!["q'<" = x] } else { 0 }), idf(x) = bool!({ false }), onclick = bool!((|| k)())})) }
    h_15_g049(b) { let x = t(1); lit("<input &lt;=\"\0"); esc(x); lit("\">"); end(b, input!('<' = frag!(("\0"), loop { break (x) }))) }
    h_15_g050(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p><link id=\""); lit(if k { "true" } else { "false" }); lit("\">"); if k { esc(y); } else if !k { lit("<embed"); if k || l { lit(" id"); } lit(" "); esc(x); lit("=\""); esc(y); lit("\">"); } else { lit("0"); } lit("<wbr></p>"); end(b, p!(link!(id = k), frag_match!(if k { 'q: { break 'q y } } else if !k { embed!(id = bool!(k || l), { let q = x; q } = classes![y as &str]) } else { 0 }), wbr![])) }
    h_15_g051(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<meta wrap=\"1.503\" data_x=\""); if k || k { esc(x); } lit("\" frag=\""); esc(x); lit("\">"); end(b, meta![(("wrap")) = frag!(idf("1.50"), 1 + 2), data_x = if k || k { Some(x) } else { None }, frag = *&x]) }
    h_15_g052(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p><param true_=\""); esc(x); esc(x); esc(x); lit("\" type=\"["); esc(x); lit("]\""); if k { lit(" aria-label"); } lit(">"); esc(x); lit("<base "); esc(y); lit("=\"\" "); esc(x); lit("=\""); esc(y); lit("\" aria-label=\""); lit(x); lit("\"></p>"); end(b, p!(param!(r#true_ = frag!{x, iter!([P0 { a: "other", b: x }.b, x])}, r#type = format_args!("[{}]", x), "aria-label" = bool!((|| k)())), { let q = idf; q([x, "other"][0]) }, base!(S0.m(y) = classes!(), { let q = x; q } = y, "aria-label" = raw!(x)))) }
    h_15_g053(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<source loop=\""); esc(x); lit("\""); if k { lit(" "); esc(y); } lit(">"); end(b, source!(r#loop = 'q: { break 'q x }, { y } = bool!(!!k))) }
    h_15_g054(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<p><track "); esc(y); lit("=\"\u{7f}\" href=\""); if k || k { esc(x); } lit("\">"); esc(x); lit("<col></p>"); end(b, p!(track!({ { y } } = loop { break "\u{7f}" }, href = if k || k { Some(x) } else { None }), loop { break (x) }, col![])) }
    h_15_g055(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<wbr "); esc(y); lit("=\""); if k { esc(x); } else { esc(x); } lit("\" data_x=\""); if k && k { lit("3"); } lit(" 28 "); esc(x); lit("   \">"); end(b, wbr!({ let q = y; q } = match k { true => x, false => x }, data_x = classes![frag_match!(if k && k { [1, 2, 3].len() }), 7u32 << 2, unsafe { idu(x) }, match 0 { _ => "  " }])) }
    h_15_g056(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<p><area name=\""); if k { esc(x); } lit("\">"); esc(y); lit("<hr"); if k { lit(" Value"); } lit("></p>"); end(b, p!(area!(name = if (|| k)() { Some(x) } else { None }), &y[..], hr![Value = bool!((k))])) }
    h_15_g057(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<base"); if k { lit(" "); esc(y); } lit(" "); esc(x); lit("=\"\u{200b}\""); if k { lit(" name"); } lit(">"); end(b, base!({ let q = y; q } = bool!((k)), idm!(x) = const0!("\u{200b}"), name = bool!(!!k))) }
    h_15_g058(b) { let x = t(1); let y = t(1); lit("<p><br "); esc(y); lit("=\""); esc(x); lit("\">"); esc(x); lit("<input data-x=\"data-x\"></p>"); end(b, p!(br![{ let q = y; q } = ({ let q = x; q })], [x, "other"][0], input!("data-x" = { "data-x" }))) }
    h_15_g059(b) { let y = t(1); let k = bool_(); let l = bool_(); lit("<col"); if !k { lit(" c"); } lit(" loop=\""); esc(y); lit(" "); esc(y); lit("\""); if k && l { lit(" a&quot;b"); } lit(">"); end(b, col!{'c' = bool!(k ^ true), r#loop = classes!(&y[..], y), "a\"b" = bool!(k && l)}) }
    h_15_g060(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<p><embed frag=\"255"); esc(x); esc(y); lit("\" "); esc(y); lit("=\""); if k { esc(x); } else { esc(x); } lit("\" "); esc(y); lit("=\"&lt;\">"); lit(x); lit("<meta></p>"); end(b, p!(embed!(frag = frag!(!0u8, x, [y, "other"][0]), { y } = if k { x } else { x }, Some(y) = loop { break "<" }), laby::raw!(x), meta![])) }
    h_15_g061(b) { let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<hr"); if k { lit(" "); esc(y); } if k || l { lit(" q"); } lit(" use=\""); lit_dec(v as u32); lit(" 7\">"); end(b, hr![{ y } = bool!((k)), nm("q") = bool!(k || l), r#use = classes!(v, K7)]) }
    h_15_g062(b) { let v = u8_(); let k = bool_(); lit("<p><img>"); lit(if k && k { "true" } else { "false" }); lit("<source p=\""); if v == 0 { lit("<base frag=\"&lt;/p&gt;\">"); } else if v < 10 {  } else { lit("many"); } lit("\"></p>"); end(b, p!(img!{}, (k && k), source!{p = frag_match!(match v { 0 => base![frag = classes!(idf("</p>"))], 1..=9 => { let _ = 1; }, _ => "many" })})) }
    h_15_g063(b) { let y = t(1); lit("<input true_=\"["); esc(y); lit("]\">"); end(b, input!(r#true_ = format_args!("[{}]", y))) }
    h_15_g064(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<p><link"); if !k { lit(" Value"); } lit(" "); esc(x); lit("=\""); esc(x); lit("\">"); lit(y); lit("<wbr></p>"); end(b, p!(link!(Value = bool!(!k), { { x } } = unsafe { idu('q: { break 'q x }) }), raw!({ y }), wbr!())) }
    h_15_g065(b) { lit("<meta v-on:a.b=\"\" onclick=\"it&#39;s\">"); end(b, meta!("v-on:a.b" = { let _ = 1; }, onclick = const0!("it's"))) }
    h_15_g066(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<p><param del=\"<hr"); if k { lit(" frag"); } if !k { lit(" "); esc(x); } lit(" :bind=\""); esc(y); lit("\">\">"); if k { esc(x); } lit("<base href=\""); esc(x); lit("\"></p>"); end(b, p!(param![del = hr!(frag = bool!((|| k)()), Some(x) = bool!(k ^ true), ":bind" = y as &str)], if !!k { Some(x) } else { None }, base!("x:y" = bool!(({ (false) })), href = P0 { a: "other", b: x }.b))) }
    h_15_g067(b) { let x = t(1); let y = t(1); lit("<source é=\""); lit(x); lit("\" id=\""); esc(y); esc(x); lit("\">"); end(b, source!["é" = laby::raw!(x), id = iter!("", [core::convert::identity::<&str>(y), { x }])]) }
    h_15_g068(b) { let x = t(1); let y = t(1); lit("<p><track value=\"1000.0 "); esc(x); lit("\">"); esc(y); lit("<col></p>"); end(b, p!(track!(value = classes!(1e3, &x[..])), (*&y), col![])) }
    h_15_g069(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<wbr"); if k { lit(" "); esc(x); } lit(" "); esc(x); lit("=\"28\" "); esc(y); lit("=\""); if k && k {  } lit("\">"); end(b, wbr!(Some(x) = bool!(!!k), { { x } } = 7u32 << 2, (y, 1).0 = frag_match!(if k && k { classes![frag!()] }))) }
}
