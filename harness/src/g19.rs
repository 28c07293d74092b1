//! fragments and class lists in each other (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{string::String, format, vec, vec::Vec};
fn idf<T>(v: T) -> T { v }
fn idb(v: bool) -> bool { v }
unsafe fn idu<T>(v: T) -> T { v }
struct S0s { f: &'static str }
static S0: S0s = S0s { f: "f0" };
impl S0s { fn m<T>(&self, v: T) -> T { v } }
struct P0<A, B> { a: A, b: B }
struct W0<T>(T);
impl<T: Render> Render for W0<T> { fn render(self, buffer: &mut Buffer) { self.0.render(buffer) } }
const K7: u8 = 7;
mod mk { pub const SEV: u8 = 7; }
const NM: [&str; 2] = ["n0", "n1"];
fn nm(s: &'static str) -> &'static str { s }
#[allow(non_upper_case_globals)] const id0: &str = "data-id0";
macro_rules! idm { ($e:expr) => { $e } }
macro_rules! const0 { ($e:expr) => {{ const C0: &str = $e; C0 }} }
#[laby] fn cmp0(#[rest] r: impl Render) -> impl Render { section!(r) }
#[laby] fn cmp1(a: impl Render, #[default("dflt")] b: impl Render) -> impl Render { frag!("{", a, "|", b, "}") }
#[laby] fn cmp2(title: impl Render, #[rest] body: impl Render) -> impl Render { frag!(h1!(title), body) }
case! {
    h_19_g000(b) { let x = t(1); let k = bool_(); let l = bool_(); lit("<p class=\"<base"); if k { lit(" "); esc(x); } lit(" a1=\"\">\"><base"); if k { lit(" "); esc(x); } lit(" a1=\"\"></p>"); end(b, p!(class = classes!{base!([x][0] = bool!({ k }), a1 = classes!())}, classes!{base!([x][0] = bool!({ k }), a1 = classes!())})) }
    h_19_g001(b) { let x = t(1); let y = t(1); let k = bool_(); lit(" <style>"); esc(x); lit("</style> <menu"); if k && k { lit(" wrap"); } lit("><hr><link "); esc(y); lit(" "); esc(x); lit("=\"\">"); esc(y); esc(x); lit("</menu>"); end(b, classes!(frag!(), style![(x)], menu!(hr!(), link!{{ let q = y; q } = bool!((true)), S0.m(x) = classes!()}, iter!([{ let q = idf; q(*&y) }, x]), (("wrap")) = bool!(k && k)))) }
    h_19_g002(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<p class=\"\u{a0} <area"); if k { lit(" "); esc(x); } lit("> "); lit_dec(v as u32); lit("\">\u{a0} <area"); if k { lit(" "); esc(x); } lit("> "); lit_dec(v as u32); lit("</p>"); end(b, p!(class = classes!("\u{a0}", area![{ x } = bool!((|| k)()), r#dyn = bool!(false)], S0.m(v)), classes!("\u{a0}", area![{ x } = bool!((|| k)()), r#dyn = bool!(false)], S0.m(v)))) }
    h_19_g003(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<figure"); if !k { lit(" class"); } lit(" "); esc(y); lit("=\""); lit(x); lit("\" a=\""); esc(y); esc(x); lit("\">\r</figure>"); esc(x); end(b, frag!(figure!{class = bool!(k ^ true), [y][0] = laby::raw!(x), "\r", "a" = iter!([&y[..], ("other", x).1]),}, x)) }
    h_19_g004(b) { lit("<p class=\"a&lt;b\">a&lt;b</p>"); end(b, p!(class = classes!("a<b"), classes!("a<b"))) }
    h_19_g005(b) { let x = t(1); let y = t(1); lit("<section _u=\"\">"); esc(x); lit(" "); esc(y); lit("<param .prop=\"9\" "); esc(y); lit("=\""); esc(x); lit("\" data_x=\"["); esc(x); lit("]\"></section> <hr> "); lit(y); lit(" <div>a7</div>"); end(b, classes!(section!(_u = (), classes![String::from(x), if let Some(q) = Some(y) { q } else { "no" }], param![".prop" = (9u8), (y, 1).0 = unsafe { idu(x) }, data_x = format_args!("[{}]", x)]), hr!(), raw!(y), laby::div!(const0!("a"), 7))) }
    h_19_g006(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<p class=\"<param"); if k && k { lit(" "); esc(x); } lit("> <base> <track onclick=\""); if k && k { esc(y); } else { esc(y); } lit(" \" p=\"["); esc(x); lit("]\">\"><param"); if k && k { lit(" "); esc(x); } lit("> <base> <track onclick=\""); if k && k { esc(y); } else { esc(y); } lit(" \" p=\"["); esc(x); lit("]\"></p>"); end(b, p!(class = classes![param!({ { x } } = bool!(k && k)), base!(), track!(onclick = classes!{if k && k { idm!((y)) } else { y }, ""}, p = format_args!("[{}]", x))], classes![param!({ { x } } = bool!(k && k)), base!(), track!(onclick = classes!{if k && k { idm!((y)) } else { y }, ""}, p = format_args!("[{}]", x))])) }
    h_19_g007(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<h4 for=\""); if k { lit_dec(v as u32); } lit("\">["); esc(y); lit("]<area @click=\"7\""); if k { lit(" "); esc(y); } lit("></h4> "); esc(x); lit(" "); if k { lit("<track "); esc(x); lit("=\""); esc(x); lit("\">"); } else if k { esc(x); } else { lit("0"); } end(b, classes![h4!(r#for = frag_match!(if k { frag![v, ()] }), format_args!("[{}]", y), area!{"@click" = match 0 { _ => 7 }, Some(y) = bool!(k)}), { x }, frag_match!(if idb(k) { track!{{ { x } } = ({ let q = x; q })} } else if (|| k)() { { let q = idf; q(x) } } else { 0 })]) }
    h_19_g008(b) { let x = t(1); lit("<p class=\""); esc(x); lit("\">"); esc(x); lit("</p>"); end(b, p!(class = classes!([x, "other"][0]), classes!([x, "other"][0]))) }
    h_19_g009(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<col lang=\""); esc(x); esc(x); lit("\u{2028}0\""); if k { lit(" "); esc(y); } lit("><br id=\"\u{1f600}\""); if k { lit(" "); esc(x); } lit(" a1=\"\u{2028}\">"); end(b, frag![col!(lang = frag!(iter!([loop { break (x) }, x as &str]), "\u{2028}", frag! {}, 0), Some(y) = bool!((k))), br!(id = idf("\u{1f600}"), { x } = bool!({ k }), a1 = "\u{2028}")]) }
    h_19_g010(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p class=\"<param a&quot;b=\""); if k { esc(x); } lit("\" del=\"\0\" v-on:a.b=\"12\">  "); if !k { lit("data-x"); } else if k {  } else { lit("0"); } lit("\"><param a&quot;b=\""); if k { esc(x); } lit("\" del=\"\0\" v-on:a.b=\"12\">  "); if !k { lit("data-x"); } else if k {  } else { lit("0"); } lit("</p>"); end(b, p!(class = classes!{param!("a\"b" = if k { Some(x) } else { None }, del = loop { break "\0" }, "v-on:a.b" = { 12i64 }), { "\u{2028}"; }, frag_match!(if !k { "data-x" } else if !!k { frag!() } else { 0 })}, classes!{param!("a\"b" = if k { Some(x) } else { None }, del = loop { break "\0" }, "v-on:a.b" = { 12i64 }), { "\u{2028}"; }, frag_match!(if !k { "data-x" } else if !!k { frag!() } else { 0 })})) }
    h_19_g011(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<template @click=\""); esc(x); lit("\" name=\""); esc(y); lit("\" onclick=\"\u{b}\"><hr x=\" 6\""); if k { lit(" "); esc(x); } lit("></template> &lt;/p&gt;<hr "); esc(x); lit("=\""); if k { esc(x); } lit("\" @click=\""); esc(x); lit("\""); if k || k { lit(" .prop"); } lit("> <meta "); esc(x); lit("=\""); esc(y); lit("\" data-x=\""); if k { esc(x); } lit("\"> <meta dyn=\""); esc(x); lit("\" onclick=\""); esc(y); lit("\">"); end(b, classes!{template!["@click" = if let Some(q) = Some(*&x) { q } else { "no" }, hr!(x = classes!(frag!(), { 5; 6 }), (x, 1).0 = bool!(S0.m(k))), name = y, onclick = ({ ("\u{b}") })], frag!(classes!{}, { "</p>" }, hr!{idf(x) = if (|| k)() { Some(x) } else { None }, "@click" = classes!(idf(x)), ".prop" = bool!(k || k)}, ""), meta![(x, 1).0 = (move |q: &'static str| q)(y), "data-x" = if (k) { Some(x) } else { None }], classes!(meta!(r#dyn = x, onclick = y))}) }
    h_19_g012(b) { lit("<p class=\"<hr>\"><hr></p>"); end(b, p!(class = classes!{hr!()}, classes!{hr!()})) }
    h_19_g013(b) { let x = t(1); let y = t(1); let k = bool_(); lit(" "); esc(x); lit(" <main><col Value=\" "); if k { esc(x); } else { esc(y); } lit(" 255\" id=\""); lit(if k && k { "true" } else { "false" }); lit("\"></main>"); end(b, classes!(frag!(frag!()), x, main!(col!(Value = classes!({ "a<b"; }, match k { true => x, false => y }, match 0 { _ => 0xff }), "data-x" = bool!(false), id = (k && k))))) }
    h_19_g014(b) { let v = u8_(); let k = bool_(); let l = bool_(); lit("<p class=\" <source style=\" "); lit_dec(v as u32); lit(" "); if k { lit("255"); } lit("\""); if !k { lit(" .prop"); } lit("> \"> <source style=\" "); lit_dec(v as u32); lit(" "); if k { lit("255"); } lit("\""); if !k { lit(" .prop"); } lit("> </p>"); end(b, p!(class = classes!("", source![style = classes!(classes!(), v, frag_match!(if !!k { u8::MAX })), ".prop" = bool!(!k)], frag!()), classes!("", source![style = classes!(classes!(), v, frag_match!(if !!k { u8::MAX })), ".prop" = bool!(!k)], frag!()))) }
    h_19_g015(b) { let x = t(1); let y = t(1); lit(y); esc(x); lit("<wbr 7=\"%\"><br>"); esc(x); end(b, frag!(frag!(frag!(raw!({ y }), x), wbr!{mk::SEV = idf("%")}, br!()), S0.m(&x[..]))) }
    h_19_g016(b) { lit("<p class=\"\"></p>"); end(b, p!(class = classes!{frag!(),}, classes!{frag!(),})) }
    h_19_g017(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<menuitem 7=\"\"><hr"); if k { lit(" q"); } lit(" title=\"\" x=\"7\"><base><hr "); esc(x); lit("=\"q&quot;q\"></menuitem> <section>"); esc(x); lit("["); esc(y); lit("]"); esc(x); lit("</section> <link 7=\""); esc(x); esc(y); esc(y); lit("\u{feff}\"> <table data_x=\""); esc(y); lit("\" style=\""); esc(x); lit("\"></table>"); end(b, classes![menuitem!{hr![nm("q") = bool!((k)), title = classes!{}, x = K7], (), base!(), mk::SEV = ({ ("") }), hr!([x][0] = if true { r#"q"q"# } else { r#"q"q"# })}, cmp0!(Some(x).unwrap(), frag![format_args!("[{}]", y), (move |q: &'static str| q)(x)]), link!(mk::SEV = frag!(if let Some(q) = Some(("other", x).1) { q } else { "no" }, iter!("", [*&y, P0 { a: "other", b: y }.b]), ("\u{feff}")),), table!(data_x = y, classes!(), style = &x[..])]) }
    h_19_g018(b) { let y = t(1); lit("<p class=\"  "); esc(y); lit("\">  "); esc(y); lit("</p>"); end(b, p!(class = classes!(frag! {}, "", idm!(y)), classes!(frag! {}, "", idm!(y)))) }
    h_19_g019(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("{|dflt} <select frag=\"\" .prop=\""); esc(x); lit("\" @click=\"3\">"); lit(x); lit("<hr"); if !k { lit(" Value"); } lit(" value=\""); esc(x); lit("\" yield=\"\u{ffff} -170141183460469231731687303715884105728\"></select> <pre>1000</pre>"); end(b, classes![cmp1!(a = frag!()), select!(frag = frag![], raw!(x), ".prop" = Some(x), "@click" = [1, 2, 3].len(), hr![Value = bool!(k ^ true), value = S0.m(W0(x)), r#yield = classes!{idf("\u{ffff}"), i128::MIN}]), pre!(loop { break 1_000 })]) }
    h_19_g020(b) { lit("<p class=\"\u{1}\">\u{1}</p>"); end(b, p!(class = classes!["\u{1}"], classes!["\u{1}"])) }
    h_19_g021(b) { let x = t(1); let y = t(1); let k = bool_(); if k { esc(x); } else { esc(y); } end(b, frag!{if idb(k) { idf(x) } else { y }, frag!()}) }
    h_19_g022(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<p class=\"<meta t1=\"["); esc(x); lit("]\" _u=\""); esc(x); lit("\" "); esc(y); lit("=\""); lit(x); lit("\"> "); esc(y); lit("<"); esc(x); lit(" "); if !k { esc(x); } lit("\"><meta t1=\"["); esc(x); lit("]\" _u=\""); esc(x); lit("\" "); esc(y); lit("=\""); lit(x); lit("\"> "); esc(y); lit("<"); esc(x); lit(" "); if !k { esc(x); } lit("</p>"); end(b, p!(class = classes!(meta!(t1 = format_args!("[{}]", x), _u = x as &str, idf(y) = raw!({ x })), iter!("<", [idf(y), ({ let q = x; q })]), if !k { Some(x) } else { None }), classes!(meta!(t1 = format_args!("[{}]", x), _u = x as &str, idf(y) = raw!({ x })), iter!("<", [idf(y), ({ let q = x; q })]), if !k { Some(x) } else { None }))) }
    h_19_g023(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<figure title=\""); esc(y); lit("\" x:y>"); if !k { esc(x); } lit(if k { "true" } else { "false" }); esc(x); lit("</figure> <menu>"); esc(x); lit("</menu> <area "); esc(x); lit("=\""); if k { esc(x); } lit("\"> "); esc(x); esc(x); end(b, classes![figure!{title = y, "x:y" = bool!(true), frag!({ let _ = 1; }, if k ^ true { Some(x) } else { None }, k, x)}, menu!{*&x}, area!(idf(x) = if { k } { Some(x) } else { None }), frag!(frag!(), iter!(['q: { break 'q x }, idf(x)]))]) }
    h_19_g024(b) { lit("<p class=\"<embed>\"><embed></p>"); end(b, p!(class = classes!(embed![]), classes!(embed![]))) }
    h_19_g025(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<link "); esc(x); lit("=\"\r\n 7 "); if k { esc(x); } lit("\" fn=\""); esc(y); lit(" "); lit(y); lit("\" onclick=\"2\"><br> ["); esc(x); lit("] "); lit(if k { "true" } else { "false" }); end(b, classes![frag!(link!({ let q = x; q } = classes!{{ "\r\n" }, (7), if !!k { Some(x) } else { None }}, r#fn = classes!(y, raw!({ y })), onclick = (1, 2).1), br!{},), format_args!("[{}]", x), S0.m(k)]) }
    h_19_g026(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<p class=\"<link>  <source style=\""); if k { esc(x); } else { esc(y); } lit("\" div=\""); esc(x); lit("\">\"><link>  <source style=\""); if k { esc(x); } else { esc(y); } lit("\" div=\""); esc(x); lit("\"></p>"); end(b, p!(class = classes!(link!(), "", source!{style = match k { true => idf(x), false => y }, div = *&x}), classes!(link!(), "", source!{style = match k { true => idf(x), false => y }, div = *&x}))) }
    h_19_g027(b) { let x = t(1); esc(x); esc(x); end(b, frag!(frag! {}, iter!("", [x, ({ let q = x; q })]))) }
    h_19_g028(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<p class=\""); esc(y); lit("tab\t"); if k { esc(x); } lit("\">"); esc(y); lit("tab\t"); if k { esc(x); } lit("</p>"); end(b, p!(class = classes!(frag!({ y }, "tab\t", if { k } { Some(x) } else { None }, "")), classes!(frag!({ y }, "tab\t", if { k } { Some(x) } else { None }, "")))) }
    h_19_g029(b) { let x = t(1); let k = bool_(); let l = bool_(); lit("  9 "); if k { lit("<wbr x=\""); esc(x); lit("\" in=\"\""); if k { lit(" "); esc(x); } lit(">"); } end(b, classes!{classes!(), "", 3i8.pow(2), frag_match!(if k { wbr![x = x, r#in = classes!(), Some(x) = bool!(k)] })}) }
    h_19_g030(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p class=\"<param"); if k { lit(" "); esc(y); } lit(" static=\""); if !k { esc(y); } lit("\" a&quot;b=\""); esc(y); lit("\"> "); esc(x); lit(" \"><param"); if k { lit(" "); esc(y); } lit(" static=\""); if !k { esc(y); } lit("\" a&quot;b=\""); esc(y); lit("\"> "); esc(x); lit(" </p>"); end(b, p!(class = classes!(param!{{ let q = y; q } = bool!(idb(k)), r#static = if !k { Some(y) } else { None }, "a\"b" = 'q: { break 'q unsafe { idu(y) } }}, String::from(x), frag!(frag!())), classes!(param!{{ let q = y; q } = bool!(idb(k)), r#static = if !k { Some(y) } else { None }, "a\"b" = 'q: { break 'q unsafe { idu(y) } }}, String::from(x), frag!(frag!())))) }
    h_19_g031(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<ruby "); esc(y); lit("=\"{{}}\""); if k { lit(" onclick"); } if k { lit(" "); esc(x); } lit("><area></ruby> <input data-x=\"007\" é=\""); esc(y); lit("\"> "); if k { esc(x); } end(b, classes!{ruby![(y, 1).0 = match 0 { _ => "{{}}" }, "", onclick = bool!((|| k)()), area!(), { x } = bool!(!!k)], input!("data-x" = ({ ("007") }), "é" = { y }), if !!k { Some(x) } else { None }}) }
    h_19_g032(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p class=\""); if k { esc(y); } else { esc(x); } lit("\">"); if k { esc(y); } else { esc(x); } lit("</p>"); end(b, p!(class = classes!(if idb(k) { y } else { x }), classes!(if idb(k) { y } else { x }))) }
    h_19_g033(b) { let x = t(1); let y = t(1); lit("<data>\u{7f}"); esc(y); lit("</data>"); esc(x); lit(" "); end(b, frag!(data!("\u{7f}", idm!(y)), classes![(|| x)(), frag![frag!()]])) }
    h_19_g034(b) { let x = t(1); let k = bool_(); lit("<p class=\""); esc(x); lit(" <area :bind=\""); lit(if k { "true" } else { "false" }); lit("\" "); esc(x); lit("=\"1000.0\"> \">"); esc(x); lit(" <area :bind=\""); lit(if k { "true" } else { "false" }); lit("\" "); esc(x); lit("=\"1000.0\"> </p>"); end(b, p!(class = classes!({ let q = idf; q(unsafe { idu(*&x) }) }, area!(":bind" = k, Some(x) = 1e3), ""), classes!({ let q = idf; q(unsafe { idu(*&x) }) }, area!(":bind" = k, Some(x) = 1e3), ""))) }
    h_19_g035(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); if k { esc(x); } lit(" "); if v == 0 { lit("<input blk=\"{{}}\">"); } else if v < 10 { lit("true"); } else { lit("many"); } lit(" <tbody><param"); if k { lit(" "); esc(x); } lit(" p=\"\" @click=\"\">"); esc(y); lit("\u{2028}"); if !k { esc(x); } lit("</tbody> <small>\u{1b}["); esc(x); lit("]</small>"); end(b, classes!(if S0.m(k) { Some(x) } else { None }, frag_match!(match v { 0 => input!({ "blk" } = "{{}}"), 1..=9 => true, _ => "many" }), tbody!(param!{{ let q = x; q } = bool!((|| k)()), p = classes!(), "@click" = ("")}, frag!(P0 { a: "other", b: y }.b, const0!("\u{2028}"), if !k { Some(x) } else { None })), small!("\u{1b}", format_args!("[{}]", x)))) }
    h_19_g036(b) { lit("<p class=\"<param>\"><param></p>"); end(b, p!(class = classes!{param!()}, classes!{param!()})) }
    h_19_g037(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); if k { lit("<i "); esc(x); lit(" async=\""); lit_dec(v as u32); lit("\" for=\""); esc(y); lit("\"></i>"); } lit(" <samp></samp> "); lit(if k { "true" } else { "false" }); lit(" <img>  <meta yield=\""); esc(x); lit("\">"); end(b, classes!(if k { Some(i![{ x } = bool!((true)), r#async = S0.m(v), r#for = *&y]) } else { None }, samp!(), classes!(idb(k), img!(), classes!(), meta!(r#yield = *&x)))) }
    h_19_g038(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p class=\""); if k { esc(x); } lit("  <area id=\"3 "); esc(x); lit("<"); esc(x); lit("\" a1=\"\" in=\"\">\">"); if k { esc(x); } lit("  <area id=\"3 "); esc(x); lit("<"); esc(x); lit("\" a1=\"\" in=\"\"></p>"); end(b, p!(class = classes!(if idb(k) { Some(x) } else { None }, frag!(), area!(id = classes!{1 + 2, iter!("<", [core::convert::identity::<&str>(x), idm!((|| x)())])}, a1 = { "\u{1b}"; }, r#in = classes!())), classes!(if idb(k) { Some(x) } else { None }, frag!(), area!(id = classes!{1 + 2, iter!("<", [core::convert::identity::<&str>(x), idm!((|| x)())])}, a1 = { "\u{1b}"; }, r#in = classes!())))) }
    h_19_g039(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<wbr dyn=\""); esc(x); lit(" "); esc(x); lit("\"><link type=\""); if k { esc(x); } lit("\""); if k { lit(" ref"); } lit(" "); esc(x); lit("=\"\u{1}\">"); lit(x); esc(x); end(b, frag!(classes!(), frag!(wbr!{del = bool!({ false }), r#dyn = classes!(Some(x), 'q: { break 'q x },)}, link![r#type = classes!(if !!k { Some(x) } else { None }), r#ref = bool!(S0.m(k)), Some(x) = match 0 { _ => "\u{1}" }], laby::raw!(x), x))) }
    h_19_g040(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p class=\""); if v == 7 || k { lit("long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt;"); } if k { esc(x); } lit("\">"); if v == 7 || k { lit("long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt;"); } if k { esc(x); } lit("</p>"); end(b, p!(class = classes![frag!{frag_match!(if v == 7 || k { idf("long text that goes on and on & on, past thirty two bytes <i>") }), frag_match!(if (k) { x })},], classes![frag!{frag_match!(if v == 7 || k { idf("long text that goes on and on & on, past thirty two bytes <i>") }), frag_match!(if (k) { x })},])) }
    h_19_g041(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); if k { lit("<embed "); esc(x); lit("=\"\u{1f468}\u{200d}\u{1f469}\""); if k { lit(" v-on:a.b"); } lit(">"); } else if k { lit("<img style=\""); esc(y); lit("\">"); } else { lit("0"); } lit(" \r\n <section>"); if k {  } esc(x); lit(", "); esc(y); lit("tab\t</section> "); if v == 0 { esc(y); lit("-"); lit_dec(v as u32); } else if v < 10 { lit(if k || k { "true" } else { "false" }); lit(x); } else { lit("many"); } end(b, classes!{frag_match!(if (k) { embed!(Some(x) = match 0 { _ => "\u{1f468}\u{200d}\u{1f469}" }, "v-on:a.b" = bool!((|| k)())) } else if (k) { img![style = y] } else { 0 }), idf("\r\n"), cmp0!(frag!(frag_match!(if idb(k) { Some(()) }), iter!(", ", [x, y]),), ({ ("tab\t") })), frag_match!(match v { 0 => frag!((move |q: &'static str| q)(y), if true { "-" } else { "-" }, S0.m(v)), 1..=9 => frag!{(k || k), laby::raw!(x)}, _ => "many" })}) }
    h_19_g042(b) { let x = t(1); let y = t(1); lit("<p class=\" "); esc(x); lit(" <embed type=\""); lit(y); lit("\">\"> "); esc(x); lit(" <embed type=\""); lit(y); lit("\"></p>"); end(b, p!(class = classes!((), x, embed!(r#type = laby::raw!(y))), classes!((), x, embed!(r#type = laby::raw!(y))))) }
    h_19_g043(b) { let x = t(1); esc(x); lit(" \u{1f468}\u{200d}\u{1f469} a\r\nb"); end(b, classes!(x, frag!(frag!(), if true { "\u{1f468}\u{200d}\u{1f469}" } else { "\u{1f468}\u{200d}\u{1f469}" }), if true { "a\r\nb" } else { "a\r\nb" })) }
    h_19_g044(b) { lit("<p class=\"<param>\"><param></p>"); end(b, p!(class = classes!(param!()), classes!(param!()))) }
    h_19_g045(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<track id=\""); esc(x); lit("\""); if k { lit(" data-id0"); } lit(" v-on:a.b=\"7\"><input _u=\""); esc(x); lit(" \"> <hr bool=\"false\""); if k { lit(" x"); } lit("> "); esc(x); end(b, frag!(track!(id = { let q = idf; q(x) }, (id0) = bool!(k), "v-on:a.b" = match 0 { _ => 7 }), classes!(input!(_u = classes!['q: { break 'q x }, ()]), hr!{bool = false, x = bool!(k)}, unsafe { idu(x) }))) }
    h_19_g046(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<p class=\""); lit_dec(v as u32); lit(" <embed true_=\""); if k { esc(y); } else { esc(x); } lit("<"); esc(x); lit("\" x=\"9\" .prop=\""); esc(y); lit("\"> {}\">"); lit_dec(v as u32); lit(" <embed true_=\""); if k { esc(y); } else { esc(x); } lit("<"); esc(x); lit("\" x=\"9\" .prop=\""); esc(y); lit("\"> {}</p>"); end(b, p!(class = classes!(frag![{ v }, frag!(frag!())], embed!(r#true_ = iter!("<", [if S0.m(k) { y } else { x }, loop { break (x) }]), x = match 0 { _ => 9u8 }, ".prop" = y), ("{}")), classes!(frag![{ v }, frag!(frag!())], embed!(r#true_ = iter!("<", [if S0.m(k) { y } else { x }, loop { break (x) }]), x = match 0 { _ => 9u8 }, ".prop" = y), ("{}")))) }
    h_19_g047(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<param Value=\"6\"> {<input>|"); esc(x); lit("} "); esc(y); lit(" <td style=\""); if k { esc(x); } else { esc(y); } lit("\" é=\"-\"></td>"); end(b, classes!(param!{Value = { 5; 6 }}, cmp1!(b = *&x, a = input!(name = bool!((false)))), (|| y)(), td!{frag!("", Some(())), style = if (|| k)() { idf(x) } else { y }, "é" = { "-" },},)) }
    h_19_g048(b) { lit("<p class=\"<area>\"><area></p>"); end(b, p!(class = classes!{area!{}}, classes!{area!{}})) }
    h_19_g049(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<title"); if k { lit(" blk"); } lit("></title> <option buffer=\""); if k { esc(x); } lit("\">"); lit(y); lit("<hr a&quot;b=\"97 % "); esc(x); lit(" "); esc(x); esc(x); lit("\"></option> "); if k { lit("<samp "); esc(x); lit("=\"\">a&lt;b</samp>"); } end(b, classes![title!{{ "blk" } = bool!(idb(k))}, option!(laby::raw!(y), hr!{"a\"b" = classes!{'a' as u32, if true { "%" } else { "%" }, ("other", x).1, iter!("", [({ let q = x; q }), idf(x)])}}, buffer = if k { Some(x) } else { None }), if idb(k) { Some(samp![const0!("a<b"), S0.m(x) = classes!(), { (); }]) } else { None }]) }
    h_19_g050(b) { let x = t(1); let y = t(1); lit("<p class=\"<br class=\"\" t1=\""); esc(x); lit("\" "); esc(y); lit("=\""); esc(x); lit("\"> "); esc(y); lit(" \"><br class=\"\" t1=\""); esc(x); lit("\" "); esc(y); lit("=\""); esc(x); lit("\"> "); esc(y); lit(" </p>"); end(b, p!(class = classes![br![class = {}, t1 = classes!((move |q: &'static str| q)(idm!(x))), idm!(y) = idf(x)], [y, "other"][0], { "nl\n"; }], classes![br![class = {}, t1 = classes!((move |q: &'static str| q)(idm!(x))), idm!(y) = idf(x)], [y, "other"][0], { "nl\n"; }])) }
    h_19_g051(b) { let y = t(1); lit("<abbr "); esc(y); lit("=\"\"><source></abbr>"); end(b, frag!{abbr!(idm!(y) = { "-"; }, source![]), classes!{}}) }
    h_19_g052(b) { lit("<p class=\"2\">2</p>"); end(b, p!(class = classes!((1, 2).1), classes!((1, 2).1))) }
    h_19_g053(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<s>"); esc(x); lit("</s> "); if v == 0 { lit(if k { "true" } else { "false" }); } else if v < 10 {  } else { lit("many"); } lit("  "); end(b, classes!(s!{Value = bool!((false)), &x[..]}, frag_match!(match v { 0 => !!k, 1..=9 => classes![], _ => "many" }), { false; }, frag!(frag!()))) }
    h_19_g054(b) { lit("<p class=\"97 <base> \">97 <base> </p>"); end(b, p!(class = classes![frag!(b'a'), base!(), frag!()], classes![frag!(b'a'), base!(), frag!()])) }
    h_19_g055(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); if k { esc(y); } else { esc(x); } lit("  "); end(b, classes!(if !!k { y } else { x }, frag!(frag!()), { 3f32; })) }
    h_19_g056(b) { lit("<p class=\"<link>\"><link></p>"); end(b, p!(class = classes![link![]], classes![link![]])) }
    h_19_g057(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<meta "); esc(y); lit("=\"\u{1f468}\u{200d}\u{1f469}\" q=\""); if k { esc(x); } else { esc(x); } lit(", "); esc(y); lit("\" style=\" \r\n\">"); end(b, frag!(meta!({ { y } } = concat!("\u{1f468}\u{200d}\u{1f469}", ""), nm("q") = iter!(", ", [if k { x } else { x }, ("other", y).1]), style = classes!(classes!(), loop { break "\r\n" })), frag!())) }
    h_19_g058(b) { let k = bool_(); lit("<p class=\"<base> 255 "); lit(if !k { "true" } else { "false" }); lit("\"><base> 255 "); lit(if !k { "true" } else { "false" }); lit("</p>"); end(b, p!(class = classes![base![], !0u8, !k], classes![base![], !0u8, !k])) }
    h_19_g059(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("{<br t1=\""); esc(x); lit(" %\""); if k || k { lit(" del"); } lit(">|dflt} <audio "); esc(x); lit("=\"\">e\u{301}</audio> &lt; <dfn Value=\"\">"); esc(x); lit("</dfn>"); end(b, classes!(cmp1!(a = br!(t1 = classes![String::from(x), match 0 { _ => "%" }], del = bool!(k || k),)), Some(audio![[x][0] = { (); }, match 0 { _ => "e\u{301}" }]), "<", dfn![idf(x), Value = classes![()]])) }
    h_19_g060(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<p class=\""); if k { esc(y); } else { esc(x); } lit("\">"); if k { esc(y); } else { esc(x); } lit("</p>"); end(b, p!(class = classes!(if k { y } else { x }), classes!(if k { y } else { x }))) }
    h_19_g061(b) { let x = t(1); let y = t(1); lit("<hgroup "); esc(x); lit("=\""); esc(x); lit("\">"); esc(x); esc(y); lit(" "); esc(x); lit(" c</hgroup>  "); end(b, classes!(hgroup!('q: { break 'q 'q: { break 'q x } }, { let q = x; q } = P0 { a: "other", b: if let Some(q) = Some(x) { q } else { "no" } }.b, classes![Some(y), core::convert::identity::<&str>(x), 'c',]), { (); }, frag! {})) }
    h_19_g062(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p class=\"<hr lang=\""); esc(x); lit("\" t1=\""); esc(y); lit("\"> "); lit(if k { "true" } else { "false" }); lit(" <area>\"><hr lang=\""); esc(x); lit("\" t1=\""); esc(y); lit("\"> "); lit(if k { "true" } else { "false" }); lit(" <area></p>"); end(b, p!(class = classes![hr!(lang = classes!{*&x}, t1 = y), S0.m(k), area!()], classes![hr!(lang = classes!{*&x}, t1 = y), S0.m(k), area!()])) }
    h_19_g063(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); if k { lit("<col>"); } else if k { lit("<track async=\""); lit(if k { "true" } else { "false" }); lit(" "); esc(x); esc(y); lit("\">"); } else { lit("0"); } lit("<input lang=\"#\">"); esc(x); lit("<area><base x=\"&lt;!--\" onclick=\"&quot;\">"); end(b, frag!(frag_match!(if !!k { col!() } else if idb(k) { track!{r#async = classes![k, iter!("", [x, (move |q: &'static str| q)(*&y)])]} } else { 0 }), frag!{input!(lang = "#"), x, area!(), base![x = "<!--", onclick = const0!("\""),]})) }
    h_19_g064(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<p class=\""); if k { esc(y); } else { esc(x); } lit("\">"); if k { esc(y); } else { esc(x); } lit("</p>"); end(b, p!(class = classes!{match k { true => y, false => x }}, classes!{match k { true => y, false => x }})) }
    h_19_g065(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<ruby"); if v < 10 { lit(" aria-label"); } lit(">"); esc(y); lit(" \r\n "); esc(x); lit("<"); esc(x); lit(" <embed><track aria-label=\""); if k { esc(x); } lit(" 1000.0 \" "); esc(x); lit("=\"\" lang=\""); esc(y); lit("\">"); esc(x); lit_dec(v as u32); lit("</ruby>  <style match=\"c\">"); if !k { esc(x); } lit(if k { "true" } else { "false" }); lit("</style> "); lit(if k { "true" } else { "false" }); end(b, classes!{ruby!(classes!(("other", y).1, match 0 { _ => "\r\n" }, iter!("<", [idf(x), { x }]), None::<&str>), embed![], "aria-label" = bool!(matches!(v, 0..=9)), track!("aria-label" = classes!{if k { Some(x) } else { None }, ({ (1e3) }), Some(())}, idm!(x) = { "<<<<<<<<<<<<<<<<"; }, lang = classes!(y)), frag!((|| [x, "other"][0])(), { v })), frag!(), core::iter::once(style!(r#match = 'c', if !k { Some(x) } else { None }, ({ k }),)).next(), !!k}) }
    h_19_g066(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p class=\""); lit(x); lit(" "); lit_dec(v as u32); esc(x); lit("["); esc(y); lit("]"); if k { esc(x); } lit(" "); esc(x); lit_dec(v as u32); lit("\">"); lit(x); lit(" "); lit_dec(v as u32); esc(x); lit("["); esc(y); lit("]"); if k { esc(x); } lit(" "); esc(x); lit_dec(v as u32); lit("</p>"); end(b, p!(class = classes!(frag!((), raw!({ x })), frag!(v, idm!(x), format_args!("[{}]", y), if (|| k)() { Some(x) } else { None }), frag!{x as &str, v}), classes!(frag!((), raw!({ x })), frag!(v, idm!(x), format_args!("[{}]", y), if (|| k)() { Some(x) } else { None }), frag!{x as &str, v}))) }
    h_19_g067(b) { let x = t(1); let y = t(1); lit("<a>-1.5"); esc(x); lit("</a> <em>"); esc(x); lit("<img id=\"\u{1}\"></em> ["); esc(x); lit("] <track>"); end(b, classes!{idm!(a!(-1.5, unsafe { idu(idf(x as &str)) })), em![{ let q = idf; q(x) }, img!(id = "\u{1}")], classes!(format_args!("[{}]", x), track![])}) }
    h_19_g068(b) { lit("<p class=\"1.50\">1.50</p>"); end(b, p!(class = classes!(classes!(concat!("1.50", ""))), classes!(classes!(concat!("1.50", ""))))) }
    h_19_g069(b) { let y = t(1); let v = u8_(); let k = bool_(); lit("<track>"); if k { lit("<i class=\""); esc(y); lit(" \u{1f600} \"></i>"); } end(b, frag!(track![], if S0.m(k) { Some(i!(class = classes!(y, { "\u{1f600}" }, ""))) } else { None })) }
    h_19_g070(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<p class=\""); esc(y); lit(" <hr"); if k { lit(" value"); } lit(" "); esc(x); lit("=\""); lit(if k || k { "true" } else { "false" }); lit("\"> \">"); esc(y); lit(" <hr"); if k { lit(" value"); } lit(" "); esc(x); lit("=\""); lit(if k || k { "true" } else { "false" }); lit("\"> </p>"); end(b, p!(class = classes!((({ let q = ({ let q = y; q }); q })), hr![value = bool!((k)), { { x } } = (k || k)], classes!()), classes!((({ let q = ({ let q = y; q }); q })), hr![value = bool!((k)), { { x } } = (k || k)], classes!()))) }
    h_19_g071(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); if !k { lit("<img a&quot;b>"); } else if k {  } else { lit("0"); } lit(" <bdo><link"); if k { lit(" buffer"); } if k { lit(" lang"); } lit("></bdo> <b><wbr a-b=\""); esc(x); lit("  "); esc(y); lit(" "); esc(x); lit("\"></b> {"); esc(x); lit(x); lit("|dflt}"); end(b, classes!(frag_match!(if k ^ true { img!("a\"b" = bool!(true)) } else if !!k { classes!() } else { 0 }), bdo![link![buffer = bool!((k)), lang = bool!(idb(k))]], b!(wbr!(concat!("a", "-b") = classes!{x, "", 'q: { break 'q y }, x}), frag!()), cmp1!(a = frag!{core::convert::identity::<&str>((x)), raw!(x)}))) }
    h_19_g072(b) { let x = t(1); let v = u8_(); lit("<p class=\"<img buffer=\""); esc(x); lit("\" data_x=\"9 "); lit_dec(v as u32); lit(" 2\">\"><img buffer=\""); esc(x); lit("\" data_x=\"9 "); lit_dec(v as u32); lit(" 2\"></p>"); end(b, p!(class = classes!(img![buffer = [x, "other"][0], data_x = classes!(3i8.pow(2), v as u32, 10 % 4)]), classes!(img![buffer = [x, "other"][0], data_x = classes!(3i8.pow(2), v as u32, 10 % 4)]))) }
    h_19_g073(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<dt "); esc(y); lit("=\""); lit(if k { "true" } else { "false" }); lit("\"><meta"); if k { lit(" "); esc(y); } lit(">&amp;#39;"); if k { esc(y); } else if k { lit("abc"); } else { lit("0"); } lit("</dt> "); if k { esc(x); } else if k { lit("<col lang=\"\u{200b}\">"); } else { lit("0"); } lit(" "); esc(x); lit("<"); esc(x); end(b, classes!(dt!(meta!{idm!(y) = bool!(idb(k))}, S0.m(y) = ({ k }), "&#39;", frag_match!(if (k) { S0.m(Some(y).unwrap()) } else if idb(k) { const0!("abc") } else { 0 })), frag_match!(if !!k { (x) } else if !!k { col!(lang = "\u{200b}", r#match = bool!((false))) } else { 0 }), iter!("<", [Some(x).unwrap(), x]))) }
    h_19_g074(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<p class=\""); esc(y); lit(" <source "); esc(x); lit("=\""); esc(y); lit(" ["); esc(x); lit("] \"> <meta _u=\"\u{2028}\" "); esc(x); lit("=\"\""); if k && l { lit(" "); esc(y); } lit(">\">"); esc(y); lit(" <source "); esc(x); lit("=\""); esc(y); lit(" ["); esc(x); lit("] \"> <meta _u=\"\u{2028}\" "); esc(x); lit("=\"\""); if k && l { lit(" "); esc(y); } lit("></p>"); end(b, p!(class = classes!(P0 { a: "other", b: y }.b, source!(S0.m(x) = classes![String::from(y), format_args!("[{}]", x), { '\''; }]), meta![_u = { "\u{2028}" }, { { x } } = classes!(), (y, 1).0 = bool!(k && l)]), classes!(P0 { a: "other", b: y }.b, source!(S0.m(x) = classes![String::from(y), format_args!("[{}]", x), { '\''; }]), meta![_u = { "\u{2028}" }, { { x } } = classes!(), (y, 1).0 = bool!(k && l)]))) }
    h_19_g075(b) { let x = t(1); let y = t(1); let v = u8_(); if v == 0 {  } else if v < 10 { esc(y); } else { lit("many"); } lit("<code @click=\""); esc(y); lit("\"></code>"); end(b, frag!(frag_match!(match v { 0 => frag![], 1..=9 => [y, "other"][0], _ => "many" }), code!("@click" = y),)) }
    h_19_g076(b) { lit("<p class=\"9\">9</p>"); end(b, p!(class = classes!{9u8,}, classes!{9u8,})) }
    h_19_g077(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); if k || k { lit("<template>-5\u{1b}</template>"); } lit(" "); esc(x); if k || l { esc(x); } lit(" <progress"); if k { lit(" x:y"); } lit(" onclick=\""); esc(x); lit("\"><meta></progress> "); if k { esc(x); } else { esc(y); } end(b, classes!(if k || k { Some(template![-5, if true { "\u{1b}" } else { "\u{1b}" }]) } else { None }, frag!{[x, "other"][0], frag_match!(if k || l { core::convert::identity::<&str>(x) })}, progress!("x:y" = bool!(k), meta!(), onclick = loop { break (x) }), match k { true => x, false => y })) }
    h_19_g078(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<p class=\"<param aria-label=\"0123456789abcdef&lt;\" data_x=\""); esc(y); esc(x); lit("\""); if k { lit(" lang"); } lit("> <area> \u{ffff}\"><param aria-label=\"0123456789abcdef&lt;\" data_x=\""); esc(y); esc(x); lit("\""); if k { lit(" lang"); } lit("> <area> \u{ffff}</p>"); end(b, p!(class = classes![param!("aria-label" = "0123456789abcdef<", data_x = iter!("", [idm!(y), *&x]), lang = bool!(!!k)), area![], ({ ("\u{ffff}") })], classes![param!("aria-label" = "0123456789abcdef<", data_x = iter!("", [idm!(y), *&x]), lang = bool!(!!k)), area![], ({ ("\u{ffff}") })])) }
    h_19_g079(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<samp></samp> <menu "); esc(x); lit("=\"\u{feff} "); esc(y); lit(" "); esc(y); lit(" "); esc(y); lit("\">"); esc(x); lit("tab\t</menu> <base"); if k { lit(" data_x"); } lit(">"); end(b, classes!(samp![], { menu!(String::from(x), ({ ("tab\t") }), idf(x) = classes![{ "\u{feff}" }, loop { break (y) }, 'q: { break 'q y }, y as &str]) }, base!{data_x = bool!((|| k)())})) }
    h_19_g080(b) { lit("<p class=\"\"></p>"); end(b, p!(class = classes!{frag!()}, classes!{frag!()})) }
    h_19_g081(b) { let x = t(1); let v = u8_(); lit("\0"); esc(x); lit(" "); if v == 0 { lit("<source data-x=\""); esc(x); lit("\">"); } else if v < 10 { esc(x); esc(x); lit("0123456789abcdef&lt;"); } else { lit("many"); } end(b, frag!{match 0 { _ => "\0" }, frag![classes![("other", x).1, frag_match!(match v { 0 => source!("data-x" = x), 1..=9 => frag![x as &str, { let q = idf; q(x) }, "0123456789abcdef<"], _ => "many" })]]}) }
    h_19_g082(b) { let x = t(1); let y = t(1); lit("<p class=\""); esc(y); lit(" "); esc(x); lit(" \">"); esc(y); lit(" "); esc(x); lit(" </p>"); end(b, p!(class = classes!(if let Some(q) = Some(y) { q } else { "no" }, *&x, frag!(frag!())), classes!(if let Some(q) = Some(y) { q } else { "no" }, *&x, frag!(frag!())))) }
    h_19_g083(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("\u{7f} "); lit(if k { "true" } else { "false" }); esc(x); esc(x); lit(" <param><embed>0"); esc(x); lit(" <section>["); esc(y); lit("]"); if k { esc(y); } lit("\u{a0}</section>"); end(b, classes!(loop { break "\u{7f}" }, frag!(frag!{((|| k)()), x, (move |q: &'static str| q)(x)}), frag!(param!{}, embed!(), frag![({ ("0") }), ({ let q = x; q })]), cmp0!(format_args!("[{}]", y), frag![if (|| k)() { Some(y) } else { None }, ({ ("\u{a0}") })]))) }
    h_19_g084(b) { lit("<p class=\"<link t1>\"><link t1></p>"); end(b, p!(class = classes!{link![t1 = bool!((true))]}, classes!{link![t1 = bool!((true))]})) }
    h_19_g085(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<q><link></q> "); if k {  } else if k { esc(y); } else { lit("0"); } lit(" &#39;"); end(b, classes![q!{link!{}}, frag_match!(if (k) { classes!() } else if !!k { S0.m(P0 { a: "other", b: y }.b) } else { 0 }), "'"]) }
    h_19_g086(b) { lit("<p class=\"<param> \r <embed wrap=\"&amp;#39;\" style=\"&quot;\">\"><param> \r <embed wrap=\"&amp;#39;\" style=\"&quot;\"></p>"); end(b, p!(class = classes!(param!{}, ("\r"), embed!((("wrap")) = loop { break "&#39;" }, style = ("\""))), classes!(param!{}, ("\r"), embed!((("wrap")) = loop { break "&#39;" }, style = ("\""))))) }
    h_19_g087(b) { let x = t(1); let y = t(1); let k = bool_(); lit("\u{1}<wbr style=\"<wbr>\" "); esc(y); lit("=\""); lit(if k { "true" } else { "false" }); lit("\" use=\""); esc(x); lit("\">"); end(b, frag!{const0!("\u{1}"), wbr!(style = wbr!(), (y, 1).0 = k, r#use = W0(x))}) }
    h_19_g088(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<p class=\"<link"); if k { lit(" "); esc(x); } lit(">\"><link"); if k { lit(" "); esc(x); } lit("></p>"); end(b, p!(class = classes!(link!{{ let q = x; q } = bool!(idb(k))}), classes!(link!{{ let q = x; q } = bool!(idb(k))}))) }
    h_19_g089(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<input"); if k || k { lit(" "); esc(y); } if !k { lit(" onclick"); } lit("><param> 2.0 "); if k { lit("<title>"); lit(if v == 7 || k { "true" } else { "false" }); esc(x); lit("</title>"); } lit(" "); if k { lit("28"); } end(b, classes!(frag![input!({ { y } } = bool!(k || k), onclick = bool!(k ^ true)), param!(value = bool!((false)),)], 2.0, if { k } { Some(title!((v == 7 || k), x,)) } else { None }, frag_match!(if (k) { 7u32 << 2 }))) }
    h_19_g090(b) { let x = t(1); let k = bool_(); lit("<p class=\"<link"); if k { lit(" div"); } lit(" name=\""); esc(x); lit("\">  <hr"); if k { lit(" :bind"); } lit(">\"><link"); if k { lit(" div"); } lit(" name=\""); esc(x); lit("\">  <hr"); if k { lit(" :bind"); } lit("></p>"); end(b, p!(class = classes![link!{div = bool!(k), name = (move |q: &'static str| q)(x)}, frag! {}, hr!(":bind" = bool!((|| k)()))], classes![link!{div = bool!(k), name = (move |q: &'static str| q)(x)}, frag! {}, hr!(":bind" = bool!((|| k)()))])) }
    h_19_g091(b) { let y = t(1); let k = bool_(); lit("<embed static=\"\u{ffff}\"> "); lit(if k { "true" } else { "false" }); lit(" ["); esc(y); lit("]"); end(b, classes!(embed!{href = bool!({ false }), r#static = "\u{ffff}"}, ({ k }), format_args!("[{}]", y))) }
    h_19_g092(b) { let x = t(1); lit("<p class=\""); esc(x); lit("\">"); esc(x); lit("</p>"); end(b, p!(class = classes!(P0 { a: "other", b: unsafe { idu(x) } }.b), classes!(P0 { a: "other", b: unsafe { idu(x) } }.b))) }
    h_19_g093(b) { lit("&quot;<section><embed>1000</section>"); end(b, frag!(loop { break "\"" }, cmp0!(embed!(), 1_000))) }
    h_19_g094(b) { let v = u8_(); lit("<p class=\" <link> "); lit_dec(v as u32); lit("\"> <link> "); lit_dec(v as u32); lit("</p>"); end(b, p!(class = classes!(classes!(), link!(), S0.m(v),), classes!(classes!(), link!(), S0.m(v),))) }
    h_19_g095(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); if k { esc(y); } else { esc(y); } lit(" "); if k { esc(x); } lit(" <bdi><input "); esc(y); lit("=\""); esc(x); lit("\"><embed "); esc(x); lit("=\""); esc(y); lit("\" _u=\"\""); if k { lit(" s"); } lit("></bdi> "); end(b, classes!(match k { true => (|| y)(), false => y }, frag_match!(if (k) { x }), bdi!(input![[y][0] = &x[..]], embed!({ { x } } = y, _u = classes![], S0.m("s") = bool!(k))), { "%"; })) }
    h_19_g096(b) { let x = t(1); let y = t(1); lit("<p class=\""); esc(y); lit("<"); esc(y); lit("\">"); esc(y); lit("<"); esc(y); lit("</p>"); end(b, p!(class = classes!(iter!("<", [&y[..], { let q = idf; q(if let Some(q) = Some(y) { q } else { "no" }) }])), classes!(iter!("<", [&y[..], { let q = idf; q(if let Some(q) = Some(y) { q } else { "no" }) }])))) }
    h_19_g097(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<rp>"); if !k { esc(y); } else { esc(x); } esc(y); esc(x); esc(x); esc(y); lit("</rp> <samp Value=\"<track>\"><br><base>6&quot;</samp> "); end(b, classes!(rp!{frag!(if !k { y } else { x }, [y, "other"][0], iter!([idf(x), { x }])), W0(y)}, samp!(br!(), Value = track![], base!(), { 5; 6 }, "\""), frag!())) }
    h_19_g098(b) { let y = t(1); lit("<p class=\""); esc(y); lit(" long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt; <source>\">"); esc(y); lit(" long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt; <source></p>"); end(b, p!(class = classes!(loop { break (y) }, frag!(loop { break "long text that goes on and on & on, past thirty two bytes <i>" }, { let _ = 1; }), source!{}), classes!(loop { break (y) }, frag!(loop { break "long text that goes on and on & on, past thirty two bytes <i>" }, { let _ = 1; }), source!{}))) }
    h_19_g099(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); if v == 0 { esc(x); esc(y); } else if v < 10 { esc(x); } else { lit("many"); } if k { lit("<input id=\""); if v == 0 { lit("<param match=\"true\">"); } else if v < 10 { esc(x); lit(" "); lit(x); } else { lit("many"); } lit(" "); esc(y); lit("\">"); } end(b, frag!(frag_match!(match v { 0 => iter!("", [P0 { a: "other", b: x }.b, idf(y)]), 1..=9 => 'q: { break 'q x }, _ => "many" }), frag_match!(if idb(k) { input!(id = classes![frag_match!(match v { 0 => param!(r#match = 2 == 3 || 4 == 4), 1..=9 => classes![({ let q = x; q }), raw!({ x })], _ => "many" }), y]) }))) }
}
