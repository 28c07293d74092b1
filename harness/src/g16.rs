//! attributes of every form (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{string::String, format, vec, vec::Vec};
fn idf<T>(v: T) -> T { v }
fn idb(v: bool) -> bool { v }
unsafe fn idu<T>(v: T) -> T { v }
struct S0s { f: &'static str }
static S0: S0s = S0s { f: "f0" };
impl S0s { fn m<T>(&self, v: T) -> T { v } }
struct P0<A, B> { a: A, b: B }
struct W0<T>(T);
impl<T: Render> Render for W0<T> { fn render(self, buffer: &mut Buffer) { self.0.render(buffer) } }
const K7: u8 = 7;
mod mk { pub const SEV: u8 = 7; }
const NM: [&str; 2] = ["n0", "n1"];
fn nm(s: &'static str) -> &'static str { s }
#[allow(non_upper_case_globals)] const id0: &str = "data-id0";
macro_rules! idm { ($e:expr) => { $e } }
macro_rules! const0 { ($e:expr) => {{ const C0: &str = $e; C0 }} }
#[laby] fn cmp0(#[rest] r: impl Render) -> impl Render { section!(r) }
#[laby] fn cmp1(a: impl Render, #[default("dflt")] b: impl Render) -> impl Render { frag!("{", a, "|", b, "}") }
#[laby] fn cmp2(title: impl Render, #[rest] body: impl Render) -> impl Render { frag!(h1!(title), body) }
case! {
    h_16_g000(b) { let x = t(1); let y = t(1); lit("<option data_x=\""); esc(y); lit("\" "); esc(x); lit("></option>"); end(b, option!(data_x = ("other", y).1, [x][0] = bool!({ true }))) }
    h_16_g001(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<address "); esc(y); lit("=\"nl\n ["); esc(x); lit("]\" t1=\"&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;\" q&#39;&lt;=\"0123456789abcdef"); esc(x); if k || l { esc(y); } lit("\">-1.5</address>"); end(b, address!(Some(y) = classes![if true { "nl\n" } else { "nl\n" }, format_args!("[{}]", x)], t1 = match 0 { _ => "<<<<<<<<<<<<<<<<" }, "q'<" = frag!(if true { "0123456789abcdef" } else { "0123456789abcdef" }, Some(x).unwrap(), if k || l { Some(y) } else { None }), -1.5)) }
    h_16_g002(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<legend"); if k { lit(" "); esc(x); } lit(" "); esc(x); lit("=\""); esc(y); lit("\""); if k { lit(" "); esc(y); } if k && l { lit(" style"); } lit(">44q&quot;q</legend>"); end(b, legend!(idf(x) = bool!(idb(k)), idm!(x) = ({ let q = y; q }), idm!(y) = bool!(S0.m(k)), 300i32 as u8, style = bool!(k && l), r#"q"q"#)) }
    h_16_g003(b) { let x = t(1); let y = t(1); lit("<ruby Value=\""); esc(x); lit("\" é=\""); esc(x); lit("\" @click=\"&gt;\" "); esc(y); lit("=\""); esc(x); lit("\"></ruby>"); end(b, ruby!(Value = core::convert::identity::<&str>(x), title = bool!(false), "é" = [x, "other"][0], "@click" = if true { ">" } else { ">" }, { let q = y; q } = x)) }
    h_16_g004(b) { lit("<blockquote t1=\"0123456789012345678901234567890123456789\">1000</blockquote>"); end(b, blockquote!(t1 = match 0 { _ => "0123456789012345678901234567890123456789" }, (1_000), lang = bool!(false))) }
    h_16_g005(b) { let x = t(1); let k = bool_(); lit("<td aria-label=\"1000.0\" "); esc(x); lit("=\""); esc(x); lit("\""); if k || k { lit(" p"); } lit(">2"); esc(x); lit("</td>"); end(b, td!(10 % 4, "aria-label" = (1e3), idm!(x) = [x, "other"][0], p = bool!(k || k), x)) }
    h_16_g006(b) { let x = t(1); let y = t(1); lit("<meter x=\""); esc(x); lit("\" static=\""); esc(y); lit("\" as=\"\" "); esc(x); lit("=\""); esc(x); lit("\"></meter>"); end(b, meter!(x = { ({ let q = x; q }) }, r#static = (|| Some(y).unwrap())(), r#as = frag!{}, (x, 1).0 = &x[..])) }
    h_16_g007(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<noscript value=\""); esc(x); lit("\""); if k { lit(" a&quot;b"); } lit(" f0=\""); esc(x); esc(x); lit("\" p=\"\""); if k { lit(" x"); } lit(">["); esc(y); lit("]</noscript>"); end(b, noscript!(value = &x[..], format_args!("[{}]", y), "a\"b" = bool!(S0.m(k)), S0.f = iter!("", [x, x]), p = { "007"; }, x = bool!(!!k))) }
    h_16_g008(b) { let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<dt buffer=\"{}\""); if !k { lit(" for"); } lit(">"); esc(y); lit_dec(v as u32); lit("</dt>"); end(b, dt!(y, buffer = ({ ("{}") }), v, r#for = bool!(k ^ true))) }
    h_16_g009(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<style "); esc(x); lit("=\""); if k { esc(x); } else { esc(y); } lit("\" &lt;=\"0\" style=\"0\"></style>"); end(b, style!({ x } = if !!k { x } else { y }, '<' = -0, style = idf("0"))) }
    h_16_g010(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<main "); esc(x); lit("=\"\u{7f}\" _u=\""); if k || k { if !k { esc(y); } } else { lit("<embed>"); } lit("\""); if k || l { lit(" "); esc(x); } lit(" onclick=\""); esc(x); lit("\"></main>"); end(b, main!((), S0.m(x) = "\u{7f}", _u = frag_match!(if k || k { if k ^ true { Some(y) } else { None } } else { embed!() }), Some(x) = bool!(k || l), onclick = *&x)) }
    h_16_g011(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<var "); esc(x); lit("=\""); esc(x); esc(y); lit("  "); lit(if k { "true" } else { "false" }); lit(" "); lit_dec(v as u32); lit("\" 7=\""); esc(x); lit("\""); if k { lit(" n0"); } lit(" v-on:a.b=\"0\""); if k { lit(" buffer"); } lit(">"); esc(x); lit("\u{a0}</var>"); end(b, var!(idm!(x) = classes!(iter!([x, Some(y).unwrap()]), "", idb(k), v as u32), 7 = Some(x), NM[0] = bool!(idb(k)), "v-on:a.b" = "0", buffer = bool!(k), Some(x).unwrap(), const0!("\u{a0}"))) }
    h_16_g012(b) { let k = bool_(); let l = bool_(); lit("<p fn=\"\u{1b}\""); if !k { lit(" href"); } lit("></p>"); end(b, p!(r#fn = idf("\u{1b}"), href = bool!(!k))) }
    h_16_g013(b) { let x = t(1); let k = bool_(); let l = bool_(); lit("<map"); if !k { lit(" in"); } lit(" _u=\"\" async=\""); if k { lit("<embed"); if k { lit(" 7"); } lit(" _u>"); } else if k { esc(x); } else { lit("0"); } lit("\">"); esc(x); lit("</map>"); end(b, map!(S0.m(x), r#in = bool!(k ^ true), _u = "", r#async = frag_match!(if !!k { embed!(7 = bool!((k)), _u = bool!(true),) } else if k { P0 { a: "other", b: x }.b } else { 0 }))) }
    h_16_g014(b) { let x = t(1); let k = bool_(); let l = bool_(); lit("<nav"); if k { lit(" for"); } lit(" ref=\"\""); if k { lit(" @click"); } if k { lit(" "); esc(x); } lit(">"); if k || l { esc(x); } esc(x); lit("</nav>"); end(b, nav!(if k || l { Some(x) } else { None }, r#for = bool!(!!k), ({ let q = x; q }), r#ref = frag!(frag! {}, classes!()), "@click" = bool!({ k }), idm!(x) = bool!((k)))) }
    h_16_g015(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<meter fn=\""); esc(x); lit("\" @click=\"\u{1f468}\u{200d}\u{1f469}\" a-b=\""); esc(x); lit("\" ref=\"<col data-x=\""); esc(x); lit("\""); if k { lit(" ref"); } if !k { lit(" "); esc(x); } lit(">\" t1=\"&lt;/p&gt;\"></meter>"); end(b, meter!(r#fn = x, "@click" = "\u{1f468}\u{200d}\u{1f469}", concat!("a", "-b") = String::from(x), r#ref = col!("data-x" = x, r#ref = bool!(k), { x } = bool!(k ^ true)), t1 = frag!(match 0 { _ => "</p>" }, ""))) }
    h_16_g016(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<del "); esc(x); lit("=\""); lit(x); lit("long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt;\""); if !k { lit(" p"); } lit(">"); if v == 0 { esc(y); } else if v < 10 {  } else { lit("many"); } lit("</del>"); end(b, del!((x, 1).0 = frag!{laby::raw!(x), { let _ = 1; }, "long text that goes on and on & on, past thirty two bytes <i>"}, p = bool!(k ^ true), frag_match!(match v { 0 => ({ let q = W0(y); q }), 1..=9 => frag!(frag! {}), _ => "many" }))) }
    h_16_g017(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<meter bool=\"&#39;\""); if k || l { lit(" "); esc(x); } lit(" _u=\"r#&quot;\">0123456789012345678901234567890123456789"); esc(y); lit("</meter>"); end(b, meter!({ "0123456789012345678901234567890123456789" }, bool = '\'', (move |q: &'static str| q)(y), { x } = bool!(k || l), _u = frag!{("r#\"")})) }
    h_16_g018(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<title "); esc(x); lit("=\"it&#39;s\" q&#39;&lt;=\""); esc(y); esc(x); lit("\" "); esc(x); lit("=\""); esc(y); lit("\""); if !k { lit(" v-on:a.b"); } lit("></title>"); end(b, title!(Some(x) = const0!("it's"), "q'<" = frag!{*&y, S0.m(x)}, Some(x) = (move |q: &'static str| q)(y), "v-on:a.b" = bool!(!k))) }
    h_16_g019(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<del @click=\""); esc(x); lit("\" "); esc(x); lit("=\""); lit(x); lit("\""); if k { lit(" id"); } if k { lit(" aria-label"); } lit(" match=\""); if !k { lit("<img x=\""); lit(x); lit("\" title=\""); esc(y); lit("\">"); } lit("\">"); esc(x); lit("</del>"); end(b, del!("@click" = *&x, idf(x) = laby::raw!(x), id = bool!(k), Some(x).unwrap(), "aria-label" = bool!(k), r#match = frag_match!(if !k { img![x = raw!(x), title = ("other", y).1] }))) }
    h_16_g020(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<tfoot é=\"\" del=\"0\">"); esc(x); if k { esc(x); } else { esc(y); } esc(y); lit("</tfoot>"); end(b, tfoot!("é" = classes!{}, P0 { a: "other", b: W0(x as &str) }.b, del = { 0 }, iter!("", [match k { true => unsafe { idu(x) }, false => y }, y]))) }
    h_16_g021(b) { let x = t(1); let k = bool_(); lit("<title"); if k { lit(" in"); } lit(" :bind=\""); esc(x); lit("\" hx-get=\"-170141183460469231731687303715884105728\"></title>"); end(b, title!(r#in = bool!(idb(k)), ":bind" = (move |q: &'static str| q)(x), "hx-get" = i128::MIN)) }
    h_16_g022(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<h2 .prop=\""); if k { esc(x); } lit("\""); if k { lit(" hx-get"); } lit(" data-id0=\"["); esc(y); lit("]\""); if !k { lit(" "); esc(x); } lit(">7</h2>"); end(b, h2!(mk::SEV, ".prop" = if (k) { Some(x) } else { None }, "hx-get" = bool!({ k }), (id0) = format_args!("[{}]", y), { x } = bool!(k ^ true))) }
    h_16_g023(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<rb loop=\""); esc(x); lit("\" .prop for=\""); esc(x); lit("\" data-x=\"3\" onclick=\""); esc(y); lit("\">"); if v == 0 { lit("<wbr Value=\""); if k { esc(x); } lit("\" "); esc(x); lit("=\"\" title>"); } else if v < 10 { esc(y); } else { lit("many"); } esc(x); lit("</rb>"); end(b, rb!(r#loop = x, ".prop" = bool!(true), frag_match!(match v { 0 => wbr!(Value = if { k } { Some(x) } else { None }, (x, 1).0 = classes!(), title = bool!((true))), 1..=9 => (y), _ => "many" }), { idm!('q: { break 'q x }) }, r#for = classes!((|| ("other", x).1)()), "data-x" = 1 + 2, onclick = ({ let q = S0.m((|| y)()); q }))) }
    h_16_g024(b) { let x = t(1); let y = t(1); lit("<head yield=\""); esc(y); lit("\" .prop=\"\\\"></head>"); end(b, head!(r#yield = core::convert::identity::<&str>(S0.m(y)), ".prop" = ({ ("\\") }))) }
    h_16_g025(b) { let y = t(1); let k = bool_(); let l = bool_(); lit("<nav"); if k || l { lit(" style"); } lit(" del=\"%\">"); if k { lit("<wbr a1=\"\" del=\"\""); if k { lit(" del"); } lit(">"); } lit("</nav>"); end(b, nav!(style = bool!(k || l), del = const0!("%"), frag_match!(if S0.m(k) { wbr!(a1 = classes!(), del = classes!(), del = bool!((|| k)())) }), { { y } } = bool!({ false }))) }
    h_16_g026(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<map q&#39;&lt;=\""); esc(x); lit("\""); if !k { lit(" match"); } lit(" "); esc(x); lit("=\""); lit_dec(v as u32); lit(" "); esc(y); lit(" "); esc(x); lit("\" value=\""); esc(x); lit("\">"); if k || k { lit("<meta "); esc(x); lit("=\""); lit(y); lit("\">"); } lit("["); esc(y); lit("]</map>"); end(b, map!("q'<" = frag!(idm!(x)), r#match = bool!(k ^ true), Some(x) = classes!({ v }, *&y, unsafe { idu({ let q = idf; q(x) }) }), frag_match!(if k || k { meta!({ let q = x; q } = raw!(y)) }), value = (|| idf(x))(), format_args!("[{}]", y))) }
    h_16_g027(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<var"); if k { lit(" "); esc(y); } lit(" as=\"-1.5\" style=\""); esc(y); if k { esc(x); lit(" "); if !k { esc(x); } lit(" "); lit_dec(v as u32); } else { lit("<meta "); esc(y); lit("=\""); lit_dec(v as u32); lit("\">"); } lit("9\" a&quot;b=\"-5\""); if !k { lit(" id"); } lit("></var>"); end(b, var!([y][0] = bool!(!!k), r#as = -1.5, style = frag![{}, ({ let q = y; q }), frag_match!(if (k) { classes![x, if k ^ true { Some(x) } else { None }, S0.m(v)] } else { meta!{idf(y) = v} }), 3i8.pow(2)], "a\"b" = -5, id = bool!(!k))) }
    h_16_g028(b) { let x = t(1); lit("<select aria-label=\"\" "); esc(x); lit("=\"it&#39;s\">"); esc(x); lit("</select>"); end(b, select!("aria-label" = frag!{}, [x][0] = concat!("it's", ""), (|| x)())) }
    h_16_g029(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<dt loop=\""); if v == 0 { lit("&amp;"); } else if v < 10 { lit("<img"); if k { lit(" "); esc(y); } lit(" Value=\""); esc(y); lit("\" hx-get=\"\r\">"); } else { lit("many"); } lit("\" href=\""); esc(x); esc(x); lit("\" name=\""); esc(y); esc(x); esc(x); lit(", "); esc(x); lit("\">9"); esc(x); lit("</dt>"); end(b, dt!(9u8, r#loop = frag_match!(match v { 0 => if true { "&" } else { "&" }, 1..=9 => img!((y, 1).0 = bool!(idb(k)), Value = if let Some(q) = Some(y) { q } else { "no" }, "hx-get" = match 0 { _ => "\r" }), _ => "many" }), href = frag!{iter!("", [*&x, x as &str])}, x, name = frag!(y as &str, Some(x).unwrap(), iter!(", ", [&x[..], if let Some(q) = Some(x) { q } else { "no" }])))) }
    h_16_g030(b) { let x = t(1); let k = bool_(); lit("<summary for=\"true\""); if k { lit(" "); esc(x); } lit(" .prop=\""); esc(x); lit("&#39;\" t1=\""); esc(x); lit("\"></summary>"); end(b, summary!(r#for = true, Some(x) = bool!(k), ".prop" = frag!(unsafe { idu(idf(x)) }, idf("'"),), t1 = idm!(x))) }
    h_16_g031(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<dialog q&#39;&lt;=\""); esc(x); esc(x); lit("\" "); esc(x); lit("=\""); esc(x); lit("\" class=\""); esc(y); lit("\" "); esc(x); lit("=\""); if v == 0 { if k || k { esc(y); lit("-"); esc(x); } else { lit("0123456789012345678901234567890123456789"); lit(y); } } else if v < 10 { lit("{}"); } else { lit("many"); } lit("\" id=\""); esc(y); esc(x); lit("\">  </dialog>"); end(b, dialog!("q'<" = iter!("", [(move |q: &'static str| q)(idf(x)), P0 { a: "other", b: *&x }.b]), idm!(x) = classes!(core::convert::identity::<&str>(x)), ("  "), class = String::from(y), { x } = frag_match!(match v { 0 => frag_match!(if k || k { frag!(W0(y), loop { break "-" }, idf(x)) } else { frag!(concat!("0123456789012345678901234567890123456789", ""), laby::raw!(y)) }), 1..=9 => if true { "{}" } else { "{}" }, _ => "many" }), id = frag!({ y }, unsafe { idu(x) }))) }
    h_16_g032(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<h5 name=\""); if k { esc(x); } lit("\" "); esc(y); lit("=\""); esc(x); lit("\">"); esc(y); lit(" </h5>"); end(b, h5!(y, name = if k { Some(x) } else { None }, " ", { y } = (|| Some((x)).unwrap())())) }
    h_16_g033(b) { let x = t(1); let v = u8_(); lit("<label "); esc(x); lit("=\""); esc(x); lit("\" v-on:a.b=\""); if v == 0 { lit("<col>"); } else if v < 10 { lit("<col>"); } else { lit("many"); } lit("\" .prop=\""); lit_dec(v as u32); lit("\"></label>"); end(b, label!({ { x } } = x as &str, "v-on:a.b" = frag_match!(match v { 0 => col!{}, 1..=9 => col!{}, _ => "many" }), ".prop" = { v })) }
    h_16_g034(b) { let x = t(1); let y = t(1); lit("<code in=\"\" as=\"\" "); esc(x); lit("=\""); esc(y); lit("\" lang=\""); esc(x); lit("\"></code>"); end(b, code!(r#in = { let _ = 1; }, r#as = Some(()), { "é"; }, idf(x) = (move |q: &'static str| q)(y), lang = x as &str)) }
    h_16_g035(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<strong"); if !k { lit(" "); esc(y); } lit(" aria-label=\"false "); lit_dec(v as u32); lit("\" Value=\""); if !k { esc(x); } lit(" "); esc(x); lit(" "); esc(y); lit(" "); esc(x); lit("\" "); esc(y); lit("=\""); if k { esc(x); } else { esc(y); } lit(", "); esc(x); lit("\" in=\"a\">1.5long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt;</strong>"); end(b, strong!({ { y } } = bool!(!k), if true { 1.5 } else { 1.5 }, "aria-label" = classes!(({ (false) }), { v }), Value = classes!(if k ^ true { Some(x) } else { None }, String::from(x), y, &x[..]), "long text that goes on and on & on, past thirty two bytes <i>", S0.m(y) = iter!(", ", [match k { true => idf(x), false => y }, ({ let q = x; q })]), r#in = "a")) }
    h_16_g036(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<details id=\"&gt;\" .prop=\"-"); if k || l { lit("<br data_x=\"255\""); if k { lit(" match"); } lit(">"); } else { lit("<img class=\"\">"); } esc(y); lit("&lt;\"></details>"); end(b, details!(id = if true { ">" } else { ">" }, ".prop" = frag!({ "-" }, frag_match!(if k || l { br!(data_x = u8::MAX, r#match = bool!(k)) } else { img!{class = classes!(), "a\"b" = bool!(({ (false) })),} }), y, match 0 { _ => "<" }))) }
    h_16_g037(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<output v-on:a.b=\""); esc(x); lit("\" for=\""); lit(x); lit("\" "); esc(x); lit("=\""); lit(if !k { "true" } else { "false" }); lit("\">"); if k && k { esc(x); } lit("</output>"); end(b, output!(if k && k { Some(x) } else { None }, "v-on:a.b" = { x }, r#for = laby::raw!(x), Some(x) = (k ^ true))) }
    h_16_g038(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p "); esc(x); lit("=\"<meta aria-label=\""); if k { esc(x); } lit("\" "); esc(x); lit("=\""); if !k { esc(y); } lit("\" blk>\" "); esc(x); lit(" yield=\""); lit_dec(v as u32); lit("\" "); esc(y); lit("=\"<area "); esc(x); lit("=\""); if k { esc(x); } else { esc(x); } lit("\" @click=\""); esc(x); lit("\">\">世界</p>"); end(b, p!("世界", idm!(x) = meta!{"aria-label" = if k { Some(x) } else { None }, { { x } } = if k ^ true { Some(y) } else { None }, { "blk" } = bool!(true)}, Some(()), { x } = bool!(true), r#yield = v as u32, Some(y) = area![idm!(x) = frag_match!(if S0.m(k) { x } else { frag!{({ let q = ({ let q = x; q }); q }),} }), "@click" = loop { break (idm!(x)) }])) }
    h_16_g039(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<strong p=\""); esc(x); lit("\" "); esc(x); lit("=\""); lit(if v < 10 { "true" } else { "false" }); lit("\" style=\"\" match=\""); esc(x); lit("\" "); esc(x); lit("=\"\u{1}\"></strong>"); end(b, strong!(p = ("other", x).1, { { x } } = (matches!(v, 0..=9)), style = classes!{}, r#match = if let Some(q) = Some(x) { q } else { "no" }, { { x } } = idf("\u{1}"))) }
    h_16_g040(b) { let x = t(1); lit("<table for=\""); lit(x); lit("\" "); esc(x); lit("=\"2\">"); esc(x); lit("</table>"); end(b, table!(idf(x), r#for = raw!({ x }), (x, 1).0 = classes!((1, 2).1))) }
    h_16_g041(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<label "); esc(x); lit("=\""); esc(x); lit("\" "); esc(x); lit("=\""); lit(if k { "true" } else { "false" }); lit("\" v-on:a.b=\""); esc(x); lit("\">"); lit(if v > 99 { "true" } else { "false" }); lit("["); esc(x); lit("]</label>"); end(b, label!(idm!(x) = x, (v > 99), [x][0] = (k), format_args!("[{}]", x), "v-on:a.b" = classes![{ let q = idf; q(x) }])) }
    h_16_g042(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<i a=\""); lit(if k { "true" } else { "false" }); lit("\" buffer=\""); esc(x); lit("\" a1=\"007\""); if k && l { lit(" "); esc(y); } lit("></i>"); end(b, i!("a" = idb(k), buffer = (x), a1 = "007", { let q = y; q } = bool!(k && l))) }
    h_16_g043(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<h1 x=\""); lit(if k && k { "true" } else { "false" }); lit("\" "); esc(x); lit("=\"false "); esc(x); lit("\" @click=\""); lit(if !k { "true" } else { "false" }); lit("\" "); esc(x); lit("></h1>"); end(b, h1!({ r"raw\<"; }, r#as = bool!(({ (false) })), x = (k && k), { let q = x; q } = classes!(!true, x,), "@click" = !k, [x][0] = bool!((true)))) }
    h_16_g044(b) { let x = t(1); let y = t(1); lit("<del a&quot;b=\"-170141183460469231731687303715884105728\" onclick=\""); esc(x); esc(x); lit("\">["); esc(x); lit("]"); esc(y); lit("</del>"); end(b, del!(format_args!("[{}]", x), "a\"b" = i128::MIN, *&y, onclick = iter!("", [&x[..], if let Some(q) = Some(x) { q } else { "no" }]))) }
    h_16_g045(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<select "); esc(x); lit("=\""); lit_dec(v as u32); lit("\" data_x=\"["); esc(x); lit("]\" frag=\""); if k && k { lit("<input x=\""); esc(y); lit("\" x=\""); lit(x); lit(" "); esc(x); lit("\">"); } if v < 10 { lit("<img>"); } else if k { lit("<source"); if k { lit(" :bind"); } lit(">"); } else { lit("0"); } lit("-1.5\"></select>"); end(b, select!((x, 1).0 = { v }, data_x = format_args!("[{}]", x), frag = frag!(frag_match!(if k && k { input!{x = y, x = classes![raw!(x), x,]} }), frag_match!(if matches!(v, 0..=9) { img!() } else if k { source!(":bind" = bool!(idb(k))) } else { 0 }), -1.5))) }
    h_16_g046(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<data"); if !k { lit(" n0"); } if k { lit(" é"); } if k { lit(" "); esc(x); } lit(" id=\""); esc(x); esc(x); lit("\">"); esc(x); lit("</data>"); end(b, data!(NM[0] = bool!(!k), "é" = bool!(idb(k)), [x][0] = bool!(idb(k)), id = iter!([idf(x), idm!(*&x)]), x)) }
    h_16_g047(b) { let x = t(1); let y = t(1); lit("<body wrap=\"3.0\" a&quot;b=\""); esc(x); lit("\" frag "); esc(x); lit("=\"97\" href=\"&amp;amp;\">"); esc(x); esc(y); lit("</body>"); end(b, body!((("wrap")) = if true { 3f32 } else { 3f32 }, x, "a\"b" = core::convert::identity::<&str>(x), frag = bool!({ true }), [x][0] = 'a' as u32, href = ("&amp;"), Some(y))) }
    h_16_g048(b) { let y = t(1); lit("<style fn=\"12\" a=\"["); esc(y); lit("]\"></style>"); end(b, style!(r#fn = if true { 12i64 } else { 12i64 }, "a" = format_args!("[{}]", y))) }
    h_16_g049(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<dd"); if !k { lit(" x"); } lit(" ref=\"\u{b}\" id=\""); lit_dec(v as u32); lit("\">"); esc(x); lit("</dd>"); end(b, dd!(x = bool!(!k), r#ref = concat!("\u{b}", ""), id = v, x)) }
    h_16_g050(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<textarea .prop=\""); if k && l { esc(x); } lit("&lt;["); esc(x); lit("]\" title=\"\" div=\""); esc(x); lit("\" id=\""); esc(x); lit("\">"); esc(y); esc(y); lit("</textarea>"); end(b, textarea!(".prop" = frag!(if k && l { Some(x) } else { None }, "<", "", format_args!("[{}]", x)), title = { 1e3; }, idf(*&y), S0.m(y), div = x, id = (x))) }
    h_16_g051(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<samp .prop=\"\u{ffff}\" div=\""); esc(x); lit("\" x:y=\""); esc(x); lit("\" blk=\"["); esc(x); lit("]\" for=\""); lit(if k && k { "true" } else { "false" }); lit("\"></samp>"); end(b, samp!(".prop" = const0!("\u{ffff}"), div = core::convert::identity::<&str>(x), "x:y" = &x[..], { "blk" } = format_args!("[{}]", x), r#for = (k && k))) }
    h_16_g052(b) { let x = t(1); let y = t(1); lit("<picture "); esc(y); lit("=\"["); esc(x); lit("]\" ref=\"&lt;\">6</picture>"); end(b, picture!(Some(y) = format_args!("[{}]", x), r#ref = { "<" }, { 5; 6 })) }
    h_16_g053(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<button for=\""); if !k { esc(x); } lit("\" "); esc(x); lit("=\"["); esc(y); lit("]\""); if k && k { lit(" hx-get"); } lit(">&lt;it&#39;s</button>"); end(b, button!(match 0 { _ => "<" }, r#for = if !k { Some(x) } else { None }, Some(x) = format_args!("[{}]", y), "it's", "hx-get" = bool!(k && k))) }
    h_16_g054(b) { let x = t(1); lit("<video dyn=\"\" "); esc(x); lit("=\"\u{a0}\" buffer=\"\0\" "); esc(x); lit("=\"&amp;\"></video>"); end(b, video!(r#dyn = { "\r"; }, { { x } } = match 0 { _ => "\u{a0}" }, buffer = loop { break "\0" }, Some(x) = const0!("&"))) }
    h_16_g055(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<thead match=\""); if k { lit("7  "); if k { esc(x); } else { lit("<param "); esc(y); lit("=\"255\" hx-get=\"\" class=\"-5\">"); } } lit("\u{1f600}\" aria-label=\"a"); esc(y); esc(x); lit("\" del=\""); lit(x); lit("\" "); esc(y); lit("=\""); esc(x); lit("\">"); esc(y); lit("</thead>"); end(b, thead!(r#match = frag!{frag_match!(if k { classes![K7, "", frag_match!(if idb(k) { S0.m(x) } else { param!([y][0] = classes!(match 0 { _ => 0xff }), "hx-get" = {}, class = -5) })] }), match 0 { _ => "\u{1f600}" }}, y, "aria-label" = frag![match 0 { _ => "a" }, "", Some(y), x], r#ref = bool!((false)), del = raw!(x), [y][0] = ("other", x).1)) }
    h_16_g056(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<object"); if v > 99 { lit(" a1"); } lit(" "); esc(y); lit("=\"\">"); esc(y); esc(y); esc(y); lit("</object>"); end(b, object!(iter!("", [loop { break (y) }, y as &str]), a1 = bool!(v > 99), S0.m(y) = { let _ = 1; }, W0(y))) }
    h_16_g057(b) { let x = t(1); let y = t(1); lit("<legend q=\""); esc(y); lit("\" "); esc(x); lit("=\""); esc(x); lit("\" "); esc(x); lit("=\"\"></legend>"); end(b, legend!(nm("q") = ({ let q = y; q }), Some(x) = (x), (x, 1).0 = { (); })) }
    h_16_g058(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<dd 7=\""); esc(x); lit("\" style=\""); esc(x); lit("\" name=\""); esc(x); lit("\" "); esc(y); lit("=\""); esc(x); lit("\">"); lit(if k { "true" } else { "false" }); lit("</dd>"); end(b, dd!(idb(k), mk::SEV = ({ let q = x; q }), style = core::convert::identity::<&str>(x), name = x, (y, 1).0 = (|| x)())) }
    h_16_g059(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<ruby"); if !k { lit(" "); esc(y); } if k { lit(" for"); } lit(" id=\""); esc(x); esc(x); lit("\" "); esc(y); lit("=\""); esc(x); lit("\" "); esc(x); lit("=\"data-x\">"); esc(x); esc(x); lit("</ruby>"); end(b, ruby!(("other", P0 { a: "other", b: x }.b).1, [y][0] = bool!(k ^ true), r#for = bool!(!!k), id = iter!("", [({ let q = x; q }), x]), idm!(y) = x, [x][0] = { "data-x" }, S0.m(x))) }
    h_16_g060(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<li é=\""); esc(x); lit("\""); if k { lit(" blk"); } lit("></li>"); end(b, li!("é" = S0.m(Some(W0(x))), { "blk" } = bool!(S0.m(k)))) }
    h_16_g061(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<tr "); esc(y); lit("=\""); esc(x); lit("\""); if k { lit(" "); esc(x); } lit(" :bind=\""); lit(if !k { "true" } else { "false" }); esc(x); lit("\">"); esc(x); lit("</tr>"); end(b, tr!((y, 1).0 = x, ("other", x).1, { { x } } = bool!(idb(k)), ":bind" = frag!{!k, ("other", x).1, ()})) }
    h_16_g062(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<fieldset"); if k || l { lit(" x"); } lit(" loop=\"  \" bool=\""); lit(x); if k { esc(y); } else { esc(x); } lit("\u{1f468}\u{200d}\u{1f469}"); lit(x); lit("\">"); if !k { esc(x); } lit("3.0</fieldset>"); end(b, fieldset!(if k ^ true { Some(x) } else { None }, x = bool!(k || l), r#ref = bool!((false)), r#loop = if true { "  " } else { "  " }, bool = frag!(raw!({ x }), { let q = idf; q(match k { true => loop { break (y) }, false => x }) }, ("\u{1f468}\u{200d}\u{1f469}"), raw!({ x })), 3f32)) }
    h_16_g063(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<details lang=\""); esc(x); lit("\""); if k { lit(" name"); } lit(" "); esc(x); lit("=\""); esc(x); lit("\" buffer=\""); esc(x); lit("\" frag=\""); lit_dec(v as u32); lit("\"></details>"); end(b, details!(lang = core::convert::identity::<&str>(unsafe { idu(Some(x).unwrap()) }), name = bool!(idb(k)), Some(x) = Some(x), buffer = &x[..], frag = v as u32)) }
    h_16_g064(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<ul hx-get true_=\""); lit_dec(v as u32); lit("\">"); if k { esc(x); } else { esc(y); } lit("</ul>"); end(b, ul!("hx-get" = bool!({ true }), if S0.m(k) { x } else { y }, r#true_ = { v })) }
    h_16_g065(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<map aria-label "); esc(x); if k { lit(" a"); } lit(">nl\n"); if k { esc(x); } else { esc(x); } lit("</map>"); end(b, map!(match 0 { _ => "nl\n" }, "aria-label" = bool!({ true }), if idb(k) { x } else { x }, { { x } } = bool!((true)), "a" = bool!(idb(k)))) }
    h_16_g066(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<h4 _u=\"q&quot;q\" f0=\""); lit(if k { "true" } else { "false" }); lit("\" buffer=\"\0\" "); esc(x); lit("=\"%\"></h4>"); end(b, h4!(_u = if true { r#"q"q"# } else { r#"q"q"# }, S0.f = ((|| k)()), buffer = "\0", idf(x) = "%")) }
    h_16_g067(b) { let x = t(1); let k = bool_(); lit("<script for=\"\" "); esc(x); lit("=\"1.5\" div=\"é\" lang=\""); esc(x); esc(x); lit("\" q&#39;&lt;=\""); esc(x); lit("\">"); lit(if k { "true" } else { "false" }); lit("</script>"); end(b, script!(r#for = None::<&str>, (x, 1).0 = 1.5, div = if true { 'é' } else { 'é' }, lang = frag![iter!("", [x, x])], k, "q'<" = (move |q: &'static str| q)(x))) }
    h_16_g068(b) { let x = t(1); let y = t(1); lit("<td 7=\"<hr data_x=\""); esc(x); lit("\" class=\""); esc(y); lit(" "); esc(x); lit("\" yield=\"false\">\" "); esc(x); lit("=\"007\">;&amp;</td>"); end(b, td!(match 0 { _ => ";" }, mk::SEV = hr![data_x = unsafe { idu(x) }, class = classes!(idf(y), x), r#yield = false], idm!(x) = "007", const0!("&"))) }
    h_16_g069(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<colgroup"); if v == 7 || k { lit(" "); esc(x); } lit(" Value=\""); esc(x); lit("\" a1=\"1.5\"></colgroup>"); end(b, colgroup!({ { x } } = bool!(v == 7 || k), Value = frag!((|| String::from(x))()), a1 = 1.5)) }
    h_16_g070(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<audio "); esc(x); lit("=\""); esc(y); lit(" "); esc(x); lit("<"); esc(x); lit("  "); if k { esc(y); } else { esc(x); } lit("\" @click=\""); if k { lit("<hr "); esc(x); lit(" "); esc(x); lit("=\"\r\n "); esc(x); lit(" &lt;!-- \">"); } else { lit("<param>"); } lit("\" blk=\"\" buffer=\"1000.0\">a&amp;b&lt;c&gt;d&quot;e&#39;f</audio>"); end(b, audio!((x, 1).0 = classes!(loop { break (y) }, iter!("<", [idf(x), loop { break (x) }]), frag!(frag!()), match k { true => y, false => x }), "@click" = frag_match!(if idb(k) { hr!{idm!(x) = bool!((true)), { x } = classes!{({ ("\r\n") }), { x }, "<!--", { 1.5; }}} } else { param![NM[0] = bool!({ false })] }), idf("a&b<c>d\"e'f"), { "blk" } = frag!(), buffer = 1e3)) }
    h_16_g071(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<iframe q&#39;&lt;=\"  "); esc(x); lit("\" "); esc(x); if k { lit(" async"); } lit(" value=\""); esc(y); lit(", "); esc(x); lit("\" frag=\""); esc(y); lit("\">"); lit(x); lit("data-x</iframe>"); end(b, iframe!("q'<" = classes!({ let _ = 1; }, { (); }, x), Some(x) = bool!(true), r#async = bool!(S0.m(k)), value = iter!(", ", [y, { Some(x).unwrap() }]), raw!(x), frag = frag!(S0.m('q: { break 'q y }), ""), if true { "data-x" } else { "data-x" })) }
    h_16_g072(b) { let x = t(1); let y = t(1); lit("<legend hx-get=\""); esc(x); lit("\" "); esc(y); lit("></legend>"); end(b, legend!("hx-get" = ("other", x).1, { y } = bool!(true))) }
    h_16_g073(b) { let k = bool_(); let l = bool_(); lit("<template dyn=\"&lt;\""); if k && l { lit(" a&quot;b"); } lit(" Value=\"\">6</template>"); end(b, template!(r#dyn = '<', "a\"b" = bool!(k && l), { 5; 6 }, Value = ())) }
    h_16_g074(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<noscript fn=\""); esc(x); lit("\""); if k { lit(" frag"); } lit(" "); esc(x); lit("=\"\u{2028}\" "); esc(x); lit("=\"["); esc(x); lit("]\">"); esc(x); lit(y); lit("</noscript>"); end(b, noscript!(r#fn = &x[..], frag = bool!(idb(k)), x, { let q = x; q } = { "\u{2028}" }, idm!(x) = format_args!("[{}]", x), laby::raw!(y))) }
    h_16_g075(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<div hx-get=\"["); esc(y); lit("] "); lit(y); lit(" "); lit(if !k { "true" } else { "false" }); lit("\" class=\" "); esc(x); lit("   two  \" loop=\"世界\" "); esc(x); lit("=\""); lit(if k { "true" } else { "false" }); lit("\" id=\""); esc(x); lit("\"></div>"); end(b, div!("hx-get" = classes![format_args!("[{}]", y), laby::raw!(y), (k ^ true),], class = classes!(frag!(frag!()), [x, "other"][0], "  two  "), r#loop = const0!("世界"), Some(x) = ((|| k)()), id = x)) }
    h_16_g076(b) { let x = t(1); lit("<p "); esc(x); lit("=\"x y\" p=\"["); esc(x); lit("]\">e\u{301}</p>"); end(b, p!({ { x } } = match 0 { _ => "x y" }, p = format_args!("[{}]", x), ({ ("e\u{301}") }))) }
    h_16_g077(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<b"); if v < 10 { lit(" name"); } lit(" class=\""); esc(x); lit("\">["); esc(y); lit("]"); if k { esc(y); } lit("</b>"); end(b, b!(onclick = bool!({ false }), name = bool!(matches!(v, 0..=9)), format_args!("[{}]", y), class = Some(x).unwrap(), if !!k { Some(y) } else { None })) }
    h_16_g078(b) { let x = t(1); let y = t(1); lit("<audio "); esc(x); lit("=\"a&lt;b\" buffer=\"\" "); esc(y); lit("=\"007\" true_=\"1000.0\"></audio>"); end(b, audio!(idm!(x) = ("a<b"), buffer = classes!{}, idf(y) = "007", r#true_ = loop { break 1e3 })) }
    h_16_g079(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<button n0=\"\" data-x=\"\""); if !k { lit(" t1"); } lit(" "); esc(x); lit("=\"&quot;\" "); esc(x); lit("=\""); lit_dec(v as u32); lit("\">"); esc(x); lit("</button>"); end(b, button!(NM[0] = frag!(), "data-x" = {}, t1 = bool!(k ^ true), S0.m(x) = const0!("\""), { let q = x; q } = v, unsafe { idu(x) })) }
    h_16_g080(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<blockquote aria-label=\""); if k { lit("12"); } else { lit("<meta t1=\""); if k { esc(x); lit(" nl\n"); } lit(" "); esc(x); lit(" tab\t\""); if !k { lit(" "); esc(y); } lit(" t1=\""); if k { esc(y); } else { esc(x); } lit("\">"); } lit("\" t1=\" \">"); if k { esc(x); } else { esc(y); } esc(x); lit("x y</blockquote>"); end(b, blockquote!(iter!([if S0.m(k) { x } else { y }, S0.m(x)]), "x y", "aria-label" = frag_match!(if S0.m(k) { (12i64) } else { meta!{t1 = classes!(frag_match!(if (k) { classes![P0 { a: "other", b: x }.b, ("nl\n")] }), loop { break (x) }, ("tab\t")), { y } = bool!(!k), t1 = if (k) { y } else { x }} }), t1 = concat!(" ", ""))) }
    h_16_g081(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<samp "); esc(x); lit("=\""); esc(y); lit("\" v-on:a.b=\""); esc(x); lit("\""); if !k { lit(" "); esc(y); } lit("></samp>"); end(b, samp!(S0.m(x) = classes!([y, "other"][0]), "v-on:a.b" = idm!(x), [y][0] = bool!(!k))) }
    h_16_g082(b) { let x = t(1); let k = bool_(); let l = bool_(); lit("<nav "); esc(x); lit("=\"a\""); if k || l { lit(" "); esc(x); } lit(" a=\"\" x=\""); esc(x); lit("\">"); lit(if k || k { "true" } else { "false" }); lit("</nav>"); end(b, nav!({ x } = { "a" }, idm!(x) = bool!(k || l), "a" = { let _ = 1; }, x = loop { break (x) }, (k || k))) }
    h_16_g083(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<h1"); if k { lit(" async"); } lit(" loop=\""); if k { lit("<input "); esc(x); lit("=\""); if !k { lit("<meta "); esc(y); lit("=\"=\">"); } else { lit("<wbr>"); } lit("\">"); } else { if k || k { esc(x); } } lit("\" "); esc(y); lit("=\""); esc(y); lit("\""); if k { lit(" p"); } lit(">["); esc(x); lit("]&#39;</h1>"); end(b, h1!(r#async = bool!({ k }), S0.m(x) = bool!(false), format_args!("[{}]", x), r#loop = frag_match!(if { k } { input![idf(x) = frag_match!(if !k { meta!([y][0] = "=") } else { wbr!() })] } else { if k || k { Some(x) } else { None } }), S0.m(y) = y, p = bool!(k), ({ ('\'') }))) }
    h_16_g084(b) { let x = t(1); lit("<span value=\""); esc(x); lit("\" a&quot;b=\"255\"></span>"); end(b, span!(value = P0 { a: "other", b: x }.b, "a\"b" = (0xff))) }
    h_16_g085(b) { let y = t(1); let k = bool_(); lit("<ins :bind=\"\" onclick=\"\" "); esc(y); lit("=\"<img"); if k { lit(" del"); } if k { lit(" style"); } lit(">\"></ins>"); end(b, ins!(":bind" = (), onclick = frag!{}, Some(y) = img!{del = bool!({ k }), style = bool!({ k })}, { "1.50"; })) }
    h_16_g086(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<small x=\""); esc(y); lit(", "); esc(x); lit("\" "); esc(x); lit("=\"#\""); if k { lit(" static"); } lit(" aria-label=\""); esc(x); lit("\">"); esc(y); esc(y); lit("</small>"); end(b, small!(x = frag!(iter!(", ", [y, idf(x)])), { let q = x; q } = if true { "#" } else { "#" }, y, r#static = bool!(k), if let Some(q) = Some(y) { q } else { "no" }, "aria-label" = idm!(x))) }
    h_16_g087(b) { let x = t(1); lit("<button x:y=\"\" hx-get=\""); esc(x); lit("e\u{301}\" q&#39;&lt;=\""); esc(x); lit("\" id=\"97\" id=\"<base>\"></button>"); end(b, button!("x:y" = {}, "hx-get" = frag!(idf(x), "e\u{301}"), "q'<" = x, id = b'a', id = base!{})) }
    h_16_g088(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<u"); if k { lit(" title"); } lit(" "); esc(x); lit("=\""); esc(x); lit("\">"); esc(x); lit(", "); esc(y); lit("</u>"); end(b, u!(title = bool!(idb(k)), { let q = x; q } = x, iter!(", ", [idm!(x), idf(y)]))) }
    h_16_g089(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<data type=\""); if k { esc(y); } lit("\" lang=\""); esc(y); lit("\" .prop>true"); esc(x); lit("<"); esc(y); lit("</data>"); end(b, data!(2 == 3 || 4 == 4, iter!("<", [x, y]), r#type = if (k) { Some(y) } else { None }, lang = (y), ".prop" = bool!((true)))) }
    h_16_g090(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<bdi "); esc(y); lit("=\"["); esc(x); lit("]\" data-x=\"\" dyn=\""); esc(y); lit("\""); if k { lit(" value"); } lit("></bdi>"); end(b, bdi!(idm!(y) = format_args!("[{}]", x), "data-x" = { (); }, r#dyn = y, value = bool!(!!k))) }
    h_16_g091(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<th 7=\""); esc(y); esc(y); if k { esc(y); } else { esc(x); } lit("{{}}\" data-x=\""); if k { lit("<col>"); } else { lit("<hr>"); } lit("\" "); esc(x); lit("=\""); esc(x); lit("\" "); esc(x); lit("=\"["); esc(x); lit("]\""); if !k { lit(" async"); } lit(">\u{ffff}</th>"); end(b, th!(7 = frag!(("other", ("other", y).1).1, &y[..], if k { y } else { x }, "{{}}"), "data-x" = frag_match!(if idb(k) { col!() } else { hr!() }), S0.m(x) = { x }, { let q = x; q } = format_args!("[{}]", x), concat!("\u{ffff}", ""), r#async = bool!(k ^ true))) }
    h_16_g092(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<section x:y=\"["); esc(y); lit("] "); if k { lit("<area>"); } else { esc(y); } lit("\""); if k { lit(" "); esc(x); } lit(">3"); if k { esc(x); } else { esc(x); } lit("</section>"); end(b, section!([1, 2, 3].len(), "x:y" = classes!(format_args!("[{}]", y), frag_match!(if S0.m(k) { area![] } else { frag!(({ let q = y; q }),) })), S0.m(x) = bool!(idb(k)), if S0.m(k) { x } else { x })) }
    h_16_g093(b) { let x = t(1); let y = t(1); lit("<tr "); esc(x); lit("=\""); esc(x); lit("\" lang=\""); esc(x); lit("\" "); esc(y); lit("=\""); esc(x); lit("["); esc(x); lit("]"); esc(x); lit("\"></tr>"); end(b, tr!(idm!(x) = ({ let q = x; q }), lang = { let q = idf; q(x) }, S0.m(y) = frag!({ x }, "", format_args!("[{}]", x), loop { break (x) }))) }
    h_16_g094(b) { let x = t(1); let k = bool_(); lit("<dl t1=\"\" hx-get=\""); esc(x); lit("\" value=\""); if k { if k { esc(x); } else { esc(x); } } else { esc(x); } lit("\" ref=\""); esc(x); lit("\">&#39;</dl>"); end(b, dl!({ "'" }, t1 = "", "hx-get" = P0 { a: "other", b: x }.b, value = frag_match!(if (|| k)() { match k { true => x, false => x } } else { loop { break (x) } }), r#ref = if let Some(q) = Some(Some(x).unwrap()) { q } else { "no" })) }
    h_16_g095(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<address href=\""); esc(x); lit("\""); if k { lit(" "); esc(x); } lit(" class=\""); lit_dec(v as u32); lit("\" title=\"\" :bind=\"&lt;\">"); esc(x); if k { esc(y); } else { esc(x); } esc(x); lit("</address>"); end(b, address!(href = { ({ let q = x; q }) }, idf(x) = bool!(S0.m(k)), iter!([S0.m(x), { if (|| k)() { y } else { x } }]), class = { v }, title = frag![], ":bind" = if true { '<' } else { '<' }, S0.m(x))) }
    h_16_g096(b) { let x = t(1); let k = bool_(); lit("<time"); if !k { lit(" title"); } lit(" yield=\"["); esc(x); lit("]\"></time>"); end(b, time!(title = bool!(k ^ true), r#yield = format_args!("[{}]", x))) }
    h_16_g097(b) { let x = t(1); lit("<template aria-label=\""); esc(x); lit("\" t1=\"&#39;"); esc(x); lit("\" x>tab\t</template>"); end(b, template!("aria-label" = x, t1 = frag!{concat!("'", ""), unsafe { idu(x) }}, if true { "tab\t" } else { "tab\t" }, x = bool!((true)))) }
    h_16_g098(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<blockquote use=\""); esc(x); lit("\" :bind=\"<col>\""); if k { lit(" lang"); } lit(" "); esc(x); lit("=\""); if k { esc(y); } else { esc(y); } lit(", "); esc(x); lit("\">"); esc(y); lit("</blockquote>"); end(b, blockquote!(&y[..], r#use = 'q: { break 'q x }, ":bind" = col!(), lang = bool!(S0.m(k)), { let q = x; q } = iter!(", ", [if !!k { y } else { y }, S0.m(x)]), None::<&str>)) }
    h_16_g099(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<hgroup for=\"é\""); if k { lit(" :bind"); } if k || k { lit(" style"); } lit(" lang=\"``\" "); esc(x); lit("=\""); esc(y); lit("\"></hgroup>"); end(b, hgroup!(r#for = ('é'), ":bind" = bool!(k), style = bool!(k || k), lang = "``", Some(x) = P0 { a: "other", b: y }.b)) }
    h_16_g100(b) { let x = t(1); lit("<abbr fn=\""); esc(x); lit("\" buffer=\"#\">"); esc(x); lit("</abbr>"); end(b, abbr!(r#fn = W0(("other", idm!(x)).1), buffer = match 0 { _ => "#" }, x)) }
    h_16_g101(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<main v-on:a.b=\""); if k || l { esc(x); } esc(y); lit("\" t1=\""); lit(x); lit("\" "); esc(y); lit("=\""); lit_dec(v as u32); lit("\">it&#39;s</main>"); end(b, main!("v-on:a.b" = frag!(if k || l { Some(x) } else { None }, y, ""), { (); }, t1 = raw!(x), loop { break "it's" }, { { y } } = { v })) }
    h_16_g102(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<optgroup"); if !k { lit(" "); esc(x); } if k { lit(" x:y"); } lit(" onclick=\""); lit_dec(v as u32); lit("\""); if k || k { lit(" fn"); } lit("></optgroup>"); end(b, optgroup!([x][0] = bool!(!k), "x:y" = bool!(idb(k)), onclick = { v }, r#fn = bool!(k || k))) }
    h_16_g103(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<dl _u=\"44\" @click=\""); esc(x); lit("\""); if v > 99 { lit(" href"); } lit(" bool=\"abc\" onclick=\""); lit(x); lit("\">"); lit(if k && l { "true" } else { "false" }); lit("</dl>"); end(b, dl!((k && l), _u = 300i32 as u8, "@click" = x, href = bool!(v > 99), bool = ("abc"), onclick = raw!(x))) }
    h_16_g104(b) { let x = t(1); lit("<address div=\"\u{ffff}\" "); esc(x); lit("=\"["); esc(x); lit("]\">["); esc(x); lit("]</address>"); end(b, address!(format_args!("[{}]", x), div = "\u{ffff}", [x][0] = format_args!("[{}]", x), None::<&str>)) }
    h_16_g105(b) { let x = t(1); let y = t(1); lit("<figure aria-label=\"&gt;\" class=\""); lit(x); lit("\"></figure>"); end(b, figure!([y][0] = bool!((false)), "aria-label" = loop { break ">" }, class = raw!({ x }))) }
    h_16_g106(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<hgroup"); if k { lit(" _u"); } if k { lit(" "); esc(x); } lit(" "); esc(y); lit(" href=\""); if !k { esc(x); } lit("\">"); esc(x); lit("</hgroup>"); end(b, hgroup!(idf({ let q = idf; q(x) }), _u = bool!(idb(k)), { x } = bool!(k), [y][0] = bool!((true)), href = if !k { Some(x) } else { None })) }
    h_16_g107(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<button bool=\""); esc(x); lit("\" aria-label=\""); lit(y); lit("\" "); esc(y); lit("=\""); lit_dec(v as u32); lit("\" bool=\""); if k { esc(x); } else { esc(y); } lit("\" frag=\"<wbr "); esc(y); lit("=\""); esc(y); lit("\" x:y=\""); esc(x); lit("\" in=\""); if k { esc(x); } else { esc(x); } lit("\">\">["); esc(y); lit("]&lt;</button>"); end(b, button!(bool = x, "aria-label" = raw!({ y }), format_args!("[{}]", y), ('<'), idm!(y) = v as u32, bool = core::convert::identity::<&str>(if S0.m(k) { x } else { y }), frag = wbr!{(y, 1).0 = String::from(y), "x:y" = x, r#in = match k { true => x, false => x }})) }
    h_16_g108(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<h4 "); esc(x); lit("=\""); esc(y); lit("\""); if k || k { lit(" fn"); } lit("></h4>"); end(b, h4!({ let q = x; q } = y, r#fn = bool!(k || k))) }
    h_16_g109(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<video a1=\""); esc(x); lit("\" "); esc(y); lit("=\""); if v == 7 || k { esc(x); } lit(x); esc(x); lit("\" fn=\""); if k { esc(x); } lit("\">"); if k { esc(x); } else { esc(x); } lit("</video>"); end(b, video!(a1 = Some(x), idm!(y) = frag!(if v == 7 || k { Some(x) } else { None }, { r#"q"q"#; }, raw!(x), idf(x)), r#fn = if { k } { Some(x) } else { None }, match k { true => x, false => x })) }
    h_16_g110(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<map "); esc(y); lit("=\""); if k { esc(x); } else { esc(x); } lit("\""); if !k { lit(" Value"); } lit(" class=\"-5\" div=\""); if k { esc(x); } lit("\">255"); esc(x); lit("</map>"); end(b, map!({ y } = match k { true => idm!(x), false => x }, u8::MAX, Value = bool!(k ^ true), class = -5, div = if k { Some(x) } else { None }, x)) }
    h_16_g111(b) { let y = t(1); lit("<data v-on:a.b=\"0\" é=\"0\" frag=\"["); esc(y); lit("]7\" onclick=\""); esc(y); lit("\" blk=\"<input>\"></data>"); end(b, data!("v-on:a.b" = 0, "é" = -0, frag = frag!(format_args!("[{}]", y), K7,), onclick = (move |q: &'static str| q)(y), { "blk" } = input!())) }
    h_16_g112(b) { let x = t(1); let k = bool_(); let l = bool_(); lit("<select "); esc(x); lit(" q=\""); lit(if !k { "true" } else { "false" }); lit("\"></select>"); end(b, select!({ "007"; }, (x, 1).0 = bool!(true), nm("q") = (k ^ true))) }
    h_16_g113(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<strong as=\""); lit(if !k { "true" } else { "false" }); lit("\""); if k { lit(" "); esc(x); } if k { lit(" hx-get"); } lit(">it&#39;s\r</strong>"); end(b, strong!("it's", r#as = (k ^ true), match 0 { _ => "\r" }, (x, 1).0 = bool!(idb(k)), "hx-get" = bool!(!!k))) }
    h_16_g114(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<section a&quot;b=\""); esc(y); lit("\" "); esc(y); lit("=\""); if k { esc(x); } lit("  true "); esc(x); lit("\""); if v > 99 { lit(" :bind"); } lit(" del=\"6\"></section>"); end(b, section!("a\"b" = y, { y } = classes!(if !!k { Some(x) } else { None }, classes!(), 2 == 3 || 4 == 4, x), ":bind" = bool!(v > 99), del = { 5; 6 })) }
    h_16_g115(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<form id=\"1000\" dyn=\""); if k { esc(x); } lit("\" "); esc(x); lit("=\""); esc(y); lit("\" a1=\"\"></form>"); end(b, form!(id = ({ (1_000) }), frag = bool!(false), r#dyn = frag!(if S0.m(k) { Some(x) } else { None }), { "a<b"; }, Some(x) = idm!(idm!(W0(y))), a1 = classes!())) }
    h_16_g116(b) { let x = t(1); lit("<pre "); esc(x); lit("=\"6\" _u=\"97\">a&lt;b"); esc(x); lit("</pre>"); end(b, pre!(idf(x) = { 5; 6 }, _u = match 0 { _ => b'a' }, { "a<b" }, idf(x))) }
    h_16_g117(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<h4 "); esc(x); lit("=\""); esc(y); lit("\" div=\""); if k { esc(x); lit(" "); esc(x); lit("<"); esc(x); } else { lit("<param data_x=\""); lit(if v > 99 { "true" } else { "false" }); lit("\">"); } lit("\"></h4>"); end(b, h4!({ { x } } = [y, "other"][0], div = frag_match!(if S0.m(k) { classes!(x, iter!("<", [Some(x).unwrap(), ({ let q = x; q })])) } else { param!(data_x = (v > 99),) }), idm!(y) = bool!((false)))) }
    h_16_g118(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<tr @click=\"\u{1b}\" "); esc(y); lit("=\""); esc(y); lit("\""); if !k { lit(" match"); } lit(" class=\""); esc(x); lit("\">"); lit(if k { "true" } else { "false" }); lit("</tr>"); end(b, tr!(idb(k), "@click" = "\u{1b}", [y][0] = P0 { a: "other", b: y }.b, r#match = bool!(k ^ true), class = (|| loop { break (x) })())) }
    h_16_g119(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<kbd "); esc(x); lit("=\""); esc(x); lit("\""); if !k { lit(" title"); } lit(" _u=\""); lit(if k { "true" } else { "false" }); lit("\" "); esc(x); lit("=\"["); esc(x); lit("]\" "); esc(y); lit("=\"\">"); esc(x); lit("</kbd>"); end(b, kbd!([x][0] = x, title = bool!(!k), _u = (k), x, { let q = x; q } = format_args!("[{}]", x), {}, (y, 1).0 = classes![])) }
}
