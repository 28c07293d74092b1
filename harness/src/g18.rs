//! the same tree inline and through variables (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{string::String, format, vec, vec::Vec};
fn idf<T>(v: T) -> T { v }
fn idb(v: bool) -> bool { v }
unsafe fn idu<T>(v: T) -> T { v }
struct S0s { f: &'static str }
static S0: S0s = S0s { f: "f0" };
impl S0s { fn m<T>(&self, v: T) -> T { v } }
struct P0<A, B> { a: A, b: B }
struct W0<T>(T);
impl<T: Render> Render for W0<T> { fn render(self, buffer: &mut Buffer) { self.0.render(buffer) } }
const K7: u8 = 7;
mod mk { pub const SEV: u8 = 7; }
const NM: [&str; 2] = ["n0", "n1"];
fn nm(s: &'static str) -> &'static str { s }
#[allow(non_upper_case_globals)] const id0: &str = "data-id0";
macro_rules! idm { ($e:expr) => { $e } }
macro_rules! const0 { ($e:expr) => {{ const C0: &str = $e; C0 }} }
#[laby] fn cmp0(#[rest] r: impl Render) -> impl Render { section!(r) }
#[laby] fn cmp1(a: impl Render, #[default("dflt")] b: impl Render) -> impl Render { frag!("{", a, "|", b, "}") }
#[laby] fn cmp2(title: impl Render, #[rest] body: impl Render) -> impl Render { frag!(h1!(title), body) }
case! {
    h_18_g000(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<picture match=\"&#39;\">"); esc(y); esc(y); lit(" <br as=\""); if k { esc(y); } else { esc(x); } lit("\" _u=\"\""); if k { lit(" static"); } lit(">  <track>\u{a0}</picture>"); match choose(4) { 0 => { end(b, picture![frag![classes!(), classes!(iter!([Some(y).unwrap(), idf(y)]), br!(r#as = if S0.m(k) { y } else { x }, _u = loop { break "" }, r#static = bool!((k))), classes!(), track!{})], r#match = '\'', classes!(const0!("\u{a0}"),)]) } 1 => { let h1 = br!(r#as = if S0.m(k) { y } else { x }, _u = loop { break "" }, r#static = bool!((k))); let h2 = track!{}; let h3 = classes!(iter!([Some(y).unwrap(), idf(y)]), h1, classes!(), h2); let h4 = frag![classes!(), h3]; let h5 = classes!(const0!("\u{a0}"),); let h6 = picture![h4, r#match = '\'', h5]; end(b, h6) } 2 => { let h1 = br!(r#as = if S0.m(k) { y } else { x }, _u = loop { break "" }, r#static = bool!((k))); let h2 = track!{}; let h3 = picture![frag![classes!(), classes!(iter!([Some(y).unwrap(), idf(y)]), h1, classes!(), h2)], r#match = '\'', classes!(const0!("\u{a0}"),)]; end(b, h3) } _ => { let h1 = track!{}; let h2 = classes!(iter!([Some(y).unwrap(), idf(y)]), br!(r#as = if S0.m(k) { y } else { x }, _u = loop { break "" }, r#static = bool!((k))), classes!(), h1); let h3 = picture![frag![classes!(), h2], r#match = '\'', classes!(const0!("\u{a0}"),)]; end(b, h3) } } }
    h_18_g001(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<figure "); esc(y); lit("=\" "); esc(x); lit(" -170141183460469231731687303715884105728 "); if k { esc(y); } lit("\""); if k && k { lit(" fn"); } lit(" async=\"\">"); esc(y); esc(x); lit("<h1><track"); if k || k { lit(" a&quot;b"); } lit(" é=\""); esc(x); lit("\" n0=\""); lit(y); lit("\"></h1><col"); if k || l { lit(" q&#39;&lt;"); } lit(">"); esc(x); lit("</figure>"); match choose(4) { 0 => { end(b, figure!({ let q = y; q } = classes!["", Some(x), i128::MIN, if k { Some(y) } else { None }], r#fn = bool!(k && k), y, idf(x), cmp2!(col!{"q'<" = bool!(k || l),}, title = track!["a\"b" = bool!(k || k), "é" = core::convert::identity::<&str>((move |q: &'static str| q)(x)), NM[0] = laby::raw!(y)]), r#async = classes!({ ">"; }), W0(x))) } 1 => { let h1 = classes!["", Some(x), i128::MIN, if k { Some(y) } else { None }]; let h2 = classes!({ ">"; }); let h3 = col!{"q'<" = bool!(k || l),}; let h4 = track!["a\"b" = bool!(k || k), "é" = core::convert::identity::<&str>((move |q: &'static str| q)(x)), NM[0] = laby::raw!(y)]; let h5 = figure!({ let q = y; q } = h1, r#fn = bool!(k && k), y, idf(x), cmp2!(h3, title = h4), r#async = h2, W0(x)); end(b, h5) } 2 => { let h1 = classes!["", Some(x), i128::MIN, if k { Some(y) } else { None }]; let h2 = classes!({ ">"; }); end(b, figure!({ let q = y; q } = h1, r#fn = bool!(k && k), y, idf(x), cmp2!(col!{"q'<" = bool!(k || l),}, title = track!["a\"b" = bool!(k || k), "é" = core::convert::identity::<&str>((move |q: &'static str| q)(x)), NM[0] = laby::raw!(y)]), r#async = h2, W0(x))) } _ => { let h1 = track!["a\"b" = bool!(k || k), "é" = core::convert::identity::<&str>((move |q: &'static str| q)(x)), NM[0] = laby::raw!(y)]; let h2 = figure!({ let q = y; q } = classes!["", Some(x), i128::MIN, if k { Some(y) } else { None }], r#fn = bool!(k && k), y, idf(x), cmp2!(col!{"q'<" = bool!(k || l),}, title = h1), r#async = classes!({ ">"; }), W0(x)); end(b, h2) } } }
    h_18_g002(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<output in=\""); esc(y); lit("\" x=\""); esc(y); lit("\""); if k { lit(" _u"); } lit("><canvas "); esc(x); lit("=\"\">e\u{301}</canvas></output>"); match choose(4) { 0 => { end(b, output!{r#in = idm!(y), { canvas!{{ "e\u{301}" }, Some(x) = frag![]} }, x = P0 { a: "other", b: y }.b, _u = bool!(S0.m(k))}) } 1 => { let h1 = frag![]; let h2 = canvas!{{ "e\u{301}" }, Some(x) = h1}; let h3 = output!{r#in = idm!(y), { {h2} }, x = P0 { a: "other", b: y }.b, _u = bool!(S0.m(k))}; end(b, h3) } 2 => { let h1 = canvas!{{ "e\u{301}" }, Some(x) = frag![]}; end(b, output!{r#in = idm!(y), { {h1} }, x = P0 { a: "other", b: y }.b, _u = bool!(S0.m(k))}) } _ => { let h1 = frag![]; end(b, output!{r#in = idm!(y), { canvas!{{ "e\u{301}" }, Some(x) = h1} }, x = P0 { a: "other", b: y }.b, _u = bool!(S0.m(k))}) } } }
    h_18_g003(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<video>"); lit_dec(v as u32); esc(x); lit("<body s=\""); lit(if k { "true" } else { "false" }); lit("\" onclick=\""); esc(y); lit(", "); esc(y); lit("\" data-x=\""); lit_dec(v as u32); lit("\"><ins>a&lt;b</ins></body><section"); if k { lit(" s"); } lit(" class=\"&lt;\" t1=\""); esc(x); lit("\">"); esc(x); lit("</section></video>"); match choose(4) { 0 => { end(b, video!(v as u32, x, body!(S0.m("s") = ({ k }), onclick = iter!(", ", ['q: { break 'q y }, Some(y).unwrap()]), ins!(frag!(frag!(), ("a<b")),), "data-x" = S0.m(v)), W0(section![S0.m("s") = bool!(k), class = if true { "<" } else { "<" }, t1 = { x }, *&x,]))) } 1 => { let h1 = frag!(frag!(), ("a<b")); let h2 = ins!(h1,); let h3 = body!(S0.m("s") = ({ k }), onclick = iter!(", ", ['q: { break 'q y }, Some(y).unwrap()]), h2, "data-x" = S0.m(v)); let h4 = section![S0.m("s") = bool!(k), class = if true { "<" } else { "<" }, t1 = { x }, *&x,]; let h5 = video!(v as u32, x, h3, W0({h4})); end(b, h5) } 2 => { let h1 = ins!(frag!(frag!(), ("a<b")),); let h2 = body!(S0.m("s") = ({ k }), onclick = iter!(", ", ['q: { break 'q y }, Some(y).unwrap()]), h1, "data-x" = S0.m(v)); let h3 = section![S0.m("s") = bool!(k), class = if true { "<" } else { "<" }, t1 = { x }, *&x,]; let h4 = video!(v as u32, x, h2, W0({h3})); end(b, h4) } _ => {  end(b, video!(v as u32, x, body!(S0.m("s") = ({ k }), onclick = iter!(", ", ['q: { break 'q y }, Some(y).unwrap()]), ins!(frag!(frag!(), ("a<b")),), "data-x" = S0.m(v)), W0(section![S0.m("s") = bool!(k), class = if true { "<" } else { "<" }, t1 = { x }, *&x,]))) } } }
    h_18_g004(b) { let y = t(1); let k = bool_(); let l = bool_(); lit("  <span lang=\"1000.0 "); lit(if k { "true" } else { "false" }); lit("\""); if k { lit(" fn"); } lit("><param p=\""); esc(y); lit("\" name=\"UP\" "); esc(y); lit("=\"a&amp;b&lt;c&gt;d&quot;e&#39;f\"><dl>"); esc(y); lit("</dl></span>"); match choose(4) { 0 => { end(b, classes!{(), frag!(), span![param!(p = [y, "other"][0], name = loop { break "UP" }, (y, 1).0 = frag!(({ ("a&b<c>d\"e'f") }), "")), lang = classes![match 0 { _ => 1e3 }, S0.m(k)], r#fn = bool!(k), dl!(W0(y), classes!{})]}) } 1 => { let h1 = classes![match 0 { _ => 1e3 }, S0.m(k)]; let h2 = frag!(({ ("a&b<c>d\"e'f") }), ""); let h3 = param!(p = [y, "other"][0], name = loop { break "UP" }, (y, 1).0 = h2); let h4 = classes!{}; let h5 = dl!(W0(y), h4); let h6 = span![h3, lang = h1, r#fn = bool!(k), h5]; let h7 = classes!{(), frag!(), h6}; end(b, h7) } 2 => { let h1 = frag!(({ ("a&b<c>d\"e'f") }), ""); let h2 = dl!(W0(y), classes!{}); end(b, classes!{(), frag!(), span![param!(p = [y, "other"][0], name = loop { break "UP" }, (y, 1).0 = h1), lang = classes![match 0 { _ => 1e3 }, S0.m(k)], r#fn = bool!(k), h2]}) } _ => {  end(b, classes!{(), frag!(), span![param!(p = [y, "other"][0], name = loop { break "UP" }, (y, 1).0 = frag!(({ ("a&b<c>d\"e'f") }), "")), lang = classes![match 0 { _ => 1e3 }, S0.m(k)], r#fn = bool!(k), dl!(W0(y), classes!{})]}) } } }
    h_18_g005(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<rb "); esc(x); lit("=\"false\"><base"); if k { lit(" x"); } if k && l { lit(" :bind"); } lit(">"); if k { lit("<sub .prop=\""); esc(y); lit("9"); esc(y); lit("\" t1=\""); esc(x); lit("\"><link ref=\""); esc(x); lit("\">"); esc(y); lit(" <img frag=\""); esc(x); lit("\"></sub>"); } lit("</rb>"); match choose(4) { 0 => { end(b, rb!(Some(x) = !true, base!(x = bool!(!!k), ":bind" = bool!(k && l)), if idb(k) { Some(sub!((), ".prop" = frag!({ let q = idf; q(P0 { a: "other", b: y }.b) }, 9u8, unsafe { idu(y) }), link!{r#ref = x}, t1 = *&x, classes!(idm!(y), classes!()), img!(frag = x))) } else { None })) } 1 => { let h1 = base!(x = bool!(!!k), ":bind" = bool!(k && l)); let h2 = frag!({ let q = idf; q(P0 { a: "other", b: y }.b) }, 9u8, unsafe { idu(y) }); let h3 = link!{r#ref = x}; let h4 = classes!(idm!(y), classes!()); let h5 = img!(frag = x); let h6 = sub!((), ".prop" = h2, h3, t1 = *&x, h4, h5); let h7 = rb!(Some(x) = !true, h1, if idb(k) { Some(h6) } else { None }); end(b, h7) } 2 => { let h1 = base!(x = bool!(!!k), ":bind" = bool!(k && l)); let h2 = classes!(idm!(y), classes!()); let h3 = img!(frag = x); let h4 = sub!((), ".prop" = frag!({ let q = idf; q(P0 { a: "other", b: y }.b) }, 9u8, unsafe { idu(y) }), link!{r#ref = x}, t1 = *&x, h2, h3); end(b, rb!(Some(x) = !true, h1, if idb(k) { Some(h4) } else { None })) } _ => { let h1 = base!(x = bool!(!!k), ":bind" = bool!(k && l)); let h2 = classes!(idm!(y), classes!()); end(b, rb!(Some(x) = !true, h1, if idb(k) { Some(sub!((), ".prop" = frag!({ let q = idf; q(P0 { a: "other", b: y }.b) }, 9u8, unsafe { idu(y) }), link!{r#ref = x}, t1 = *&x, h2, img!(frag = x))) } else { None })) } } }
    h_18_g006(b) { let x = t(1); let k = bool_(); lit("<caption><ul lang=\""); lit(x); lit("\">"); if !k { lit("%"); } lit("</ul>"); lit(if k { "true" } else { "false" }); lit("</caption>"); match choose(4) { 0 => { end(b, caption![ul!(frag![], lang = laby::raw!(x), frag_match!(if k ^ true { if true { "%" } else { "%" } })), k]) } 1 => { let h1 = frag![]; let h2 = ul!(h1, lang = laby::raw!(x), frag_match!(if k ^ true { if true { "%" } else { "%" } })); let h3 = caption![h2, k]; end(b, h3) } 2 => { let h1 = ul!(frag![], lang = laby::raw!(x), frag_match!(if k ^ true { if true { "%" } else { "%" } })); end(b, caption![h1, k]) } _ => { let h1 = caption![ul!(frag![], lang = laby::raw!(x), frag_match!(if k ^ true { if true { "%" } else { "%" } })), k]; end(b, h1) } } }
    h_18_g007(b) { let y = t(1); let k = bool_(); lit("<figure>"); if k { lit("<summary>"); esc(y); lit("</summary>"); } if k { lit("<meter"); if k || k { lit(" "); esc(y); } lit(">long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt;</meter>"); } lit("<ins></ins></figure>"); match choose(4) { 0 => { end(b, figure!(frag!(frag![""], frag!(), if idb(k) { Some(summary!["", y]) } else { None }), frag![if { k } { Some(meter!(idm!(y) = bool!(k || k), "long text that goes on and on & on, past thirty two bytes <i>")) } else { None }], frag!((),), ins![])) } 1 => { let h1 = frag![""]; let h2 = summary!["", y]; let h3 = frag!(h1, frag!(), if idb(k) { Some(h2) } else { None }); let h4 = meter!(idm!(y) = bool!(k || k), "long text that goes on and on & on, past thirty two bytes <i>"); let h5 = frag![if { k } { Some(h4) } else { None }]; let h6 = frag!((),); let h7 = ins![]; let h8 = figure!(h3, h5, h6, h7); end(b, h8) } 2 => { let h1 = summary!["", y]; let h2 = frag!(frag![""], frag!(), if idb(k) { Some(h1) } else { None }); let h3 = meter!(idm!(y) = bool!(k || k), "long text that goes on and on & on, past thirty two bytes <i>"); let h4 = frag!((),); end(b, figure!(h2, frag![if { k } { Some(h3) } else { None }], h4, ins![])) } _ => { let h1 = summary!["", y]; let h2 = frag!(frag![""], frag!(), if idb(k) { Some(h1) } else { None }); let h3 = frag!((),); end(b, figure!(h2, frag![if { k } { Some(meter!(idm!(y) = bool!(k || k), "long text that goes on and on & on, past thirty two bytes <i>")) } else { None }], h3, ins![])) } } }
    h_18_g008(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<h3 aria-label=\""); if k { esc(x); } else { esc(x); } lit("\">"); lit(if !k { "true" } else { "false" }); lit("\u{a0}</h3><hr>"); match choose(4) { 0 => { end(b, frag!{h3!(!k, ("\u{a0}"), "aria-label" = String::from(if !!k { x } else { x })), frag!(), hr!()}) } 1 => { let h1 = h3!(!k, ("\u{a0}"), "aria-label" = String::from(if !!k { x } else { x })); let h2 = hr!(); let h3 = frag!{h1, frag!(), h2}; end(b, h3) } 2 => { let h1 = h3!(!k, ("\u{a0}"), "aria-label" = String::from(if !!k { x } else { x })); let h2 = frag!{h1, frag!(), hr!()}; end(b, h2) } _ => { let h1 = frag!{h3!(!k, ("\u{a0}"), "aria-label" = String::from(if !!k { x } else { x })), frag!(), hr!()}; end(b, h1) } } }
    h_18_g009(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<aside>"); esc(x); lit("</aside>"); if k { if k { esc(x); } esc(x); esc(y); lit("<wbr><embed :bind=\"nl\n\"><track @click=\""); esc(x); esc(x); lit("\" Value=\"\">"); } else if k { lit("<video><img></video>"); } else { lit("0"); } esc(x); match choose(4) { 0 => { end(b, frag!(aside!{&x[..]}, frag_match!(if !!k { frag!(frag!{if { k } { Some(x) } else { None }, { "<<<<<<<<<<<<<<<<"; }, iter!("", [*&x, { let q = idf; q(y) }])}, wbr!(), embed!{":bind" = classes![if true { "nl\n" } else { "nl\n" },]}, track!("@click" = iter!("", [x, x]), Value = concat!("", ""))) } else if !!k { video!{img!()} } else { 0 }), unsafe { idu(x) })) } 1 => { let h1 = aside!{&x[..]}; let h2 = frag!{if { k } { Some(x) } else { None }, { "<<<<<<<<<<<<<<<<"; }, iter!("", [*&x, { let q = idf; q(y) }])}; let h3 = wbr!(); let h4 = classes![if true { "nl\n" } else { "nl\n" },]; let h5 = embed!{":bind" = h4}; let h6 = track!("@click" = iter!("", [x, x]), Value = concat!("", "")); let h7 = frag!(h2, h3, h5, h6); let h8 = img!(); let h9 = video!{h8}; let h10 = frag!(h1, frag_match!(if !!k { h7 } else if !!k { h9 } else { 0 }), unsafe { idu(x) }); end(b, h10) } 2 => { let h1 = aside!{&x[..]}; let h2 = wbr!(); let h3 = track!("@click" = iter!("", [x, x]), Value = concat!("", "")); let h4 = frag!(frag!{if { k } { Some(x) } else { None }, { "<<<<<<<<<<<<<<<<"; }, iter!("", [*&x, { let q = idf; q(y) }])}, h2, embed!{":bind" = classes![if true { "nl\n" } else { "nl\n" },]}, h3); let h5 = video!{img!()}; end(b, frag!(h1, frag_match!(if !!k { h4 } else if !!k { h5 } else { 0 }), unsafe { idu(x) })) } _ => { let h1 = track!("@click" = iter!("", [x, x]), Value = concat!("", "")); let h2 = img!(); let h3 = video!{h2}; let h4 = frag!(aside!{&x[..]}, frag_match!(if !!k { frag!(frag!{if { k } { Some(x) } else { None }, { "<<<<<<<<<<<<<<<<"; }, iter!("", [*&x, { let q = idf; q(y) }])}, wbr!(), embed!{":bind" = classes![if true { "nl\n" } else { "nl\n" },]}, h1) } else if !!k { h3 } else { 0 }), unsafe { idu(x) }); end(b, h4) } } }
    h_18_g010(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<audio onclick=\"é"); esc(x); lit("\" as=\""); esc(x); lit("\"><strong"); if k { lit(" @click"); } lit(">\0<track wrap=\"\u{feff}\">"); esc(y); esc(y); esc(x); lit("</strong>"); esc(y); lit("</audio>"); match choose(4) { 0 => { end(b, audio!{S0.m(strong!(concat!("\0", ""), track![(("wrap")) = { "\u{feff}" }], { let q = idf; q([("other", y).1, "other"][0]) }, frag![{ y }, x as &str], "@click" = bool!(k))), onclick = frag!(({ ("é") }), if let Some(q) = Some(x) { q } else { "no" }), y, r#as = idf(x)}) } 1 => { let h1 = frag!(({ ("é") }), if let Some(q) = Some(x) { q } else { "no" }); let h2 = track![(("wrap")) = { "\u{feff}" }]; let h3 = frag![{ y }, x as &str]; let h4 = strong!(concat!("\0", ""), h2, { let q = idf; q([("other", y).1, "other"][0]) }, h3, "@click" = bool!(k)); let h5 = audio!{S0.m({h4}), onclick = h1, y, r#as = idf(x)}; end(b, h5) } 2 => { let h1 = track![(("wrap")) = { "\u{feff}" }]; let h2 = audio!{S0.m(strong!(concat!("\0", ""), h1, { let q = idf; q([("other", y).1, "other"][0]) }, frag![{ y }, x as &str], "@click" = bool!(k))), onclick = frag!(({ ("é") }), if let Some(q) = Some(x) { q } else { "no" }), y, r#as = idf(x)}; end(b, h2) } _ => { let h1 = track![(("wrap")) = { "\u{feff}" }]; end(b, audio!{S0.m(strong!(concat!("\0", ""), h1, { let q = idf; q([("other", y).1, "other"][0]) }, frag![{ y }, x as &str], "@click" = bool!(k))), onclick = frag!(({ ("é") }), if let Some(q) = Some(x) { q } else { "no" }), y, r#as = idf(x)}) } } }
    h_18_g011(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<tbody>x y<area>"); if !k { esc(x); } lit(" "); esc(x); lit(" "); lit_dec(v as u32); lit("</tbody><video>\u{1f600}</video>"); if k { if k { esc(y); } } match choose(4) { 0 => { end(b, frag!(frag!(tbody!("x y", area!{}, classes![if !k { Some(x) } else { None }, idf((|| core::convert::identity::<&str>(x))()), v as u32]), video!("\u{1f600}")), frag_match!(if k { if !!k { Some(y) } else { None } }))) } 1 => { let h1 = area!{}; let h2 = classes![if !k { Some(x) } else { None }, idf((|| core::convert::identity::<&str>(x))()), v as u32]; let h3 = tbody!("x y", h1, h2); let h4 = video!("\u{1f600}"); let h5 = frag!(h3, h4); let h6 = frag!(h5, frag_match!(if k { if !!k { Some(y) } else { None } })); end(b, h6) } 2 => { let h1 = area!{}; let h2 = classes![if !k { Some(x) } else { None }, idf((|| core::convert::identity::<&str>(x))()), v as u32]; let h3 = tbody!("x y", h1, h2); let h4 = video!("\u{1f600}"); let h5 = frag!(h3, h4); end(b, frag!(h5, frag_match!(if k { if !!k { Some(y) } else { None } }))) } _ => { let h1 = classes![if !k { Some(x) } else { None }, idf((|| core::convert::identity::<&str>(x))()), v as u32]; let h2 = tbody!("x y", area!{}, h1); let h3 = video!("\u{1f600}"); end(b, frag!(frag!(h2, h3), frag_match!(if k { if !!k { Some(y) } else { None } }))) } } }
    h_18_g012(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit(" <figcaption"); if k { lit(" hx-get"); } lit(" type=\"\"><img"); if v < 10 { lit(" id"); } lit(" "); esc(x); lit("=\""); esc(x); lit("\" href=\"\"></figcaption>"); match choose(4) { 0 => { end(b, classes!{classes!(), figcaption!{"hx-get" = bool!((|| k)()), img![id = bool!(matches!(v, 0..=9)), { { x } } = x, href = { "a<b"; }], r#type = { (); },}}) } 1 => { let h1 = img![id = bool!(matches!(v, 0..=9)), { { x } } = x, href = { "a<b"; }]; let h2 = figcaption!{"hx-get" = bool!((|| k)()), h1, r#type = { (); },}; let h3 = classes!{classes!(), h2}; end(b, h3) } 2 => { let h1 = figcaption!{"hx-get" = bool!((|| k)()), img![id = bool!(matches!(v, 0..=9)), { { x } } = x, href = { "a<b"; }], r#type = { (); },}; let h2 = classes!{classes!(), h1}; end(b, h2) } _ => { let h1 = figcaption!{"hx-get" = bool!((|| k)()), img![id = bool!(matches!(v, 0..=9)), { { x } } = x, href = { "a<b"; }], r#type = { (); },}; end(b, classes!{classes!(), h1}) } } }
    h_18_g013(b) { let x = t(1); let k = bool_(); lit(if !k { "true" } else { "false" }); lit(" &#39; <tfoot buffer=\"<track bool=\""); esc(x); lit("\">\"><hr>"); esc(x); lit("</tfoot>"); match choose(4) { 0 => { end(b, classes!((k ^ true), ({ ("'") }), idm!(tfoot!(buffer = track![bool = x], hr!(), core::convert::identity::<&str>(x))))) } 1 => { let h1 = track![bool = x]; let h2 = hr!(); let h3 = tfoot!(buffer = h1, h2, core::convert::identity::<&str>(x)); let h4 = classes!((k ^ true), ({ ("'") }), idm!({h3})); end(b, h4) } 2 => { let h1 = hr!(); let h2 = tfoot!(buffer = track![bool = x], h1, core::convert::identity::<&str>(x)); end(b, classes!((k ^ true), ({ ("'") }), idm!({h2}))) } _ => { let h1 = hr!(); end(b, classes!((k ^ true), ({ ("'") }), idm!(tfoot!(buffer = track![bool = x], h1, core::convert::identity::<&str>(x))))) } } }
    h_18_g014(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<label blk=\"\"><iframe t1=\"1000.0 é "); esc(x); lit(" \"><abbr "); esc(y); lit("=\""); esc(x); lit("\">"); esc(y); lit("<input data_x=\""); esc(x); lit("\""); if k { lit(" buffer"); } lit("></abbr></iframe></label>"); match choose(4) { 0 => { end(b, label!({ "blk" } = frag!(), iframe![t1 = classes!{loop { break 1e3 }, ({ ("é") }), unsafe { idu(x) }, classes!()}, abbr!(idm!(y) = P0 { a: "other", b: idm!(x) }.b, W0(({ let q = y; q })), input!(data_x = 'q: { break 'q x }, buffer = bool!({ k }),)), div = bool!((false))])) } 1 => { let h1 = frag!(); let h2 = classes!{loop { break 1e3 }, ({ ("é") }), unsafe { idu(x) }, classes!()}; let h3 = input!(data_x = 'q: { break 'q x }, buffer = bool!({ k }),); let h4 = abbr!(idm!(y) = P0 { a: "other", b: idm!(x) }.b, W0(({ let q = y; q })), h3); let h5 = iframe![t1 = h2, h4, div = bool!((false))]; let h6 = label!({ "blk" } = h1, h5); end(b, h6) } 2 => { let h1 = classes!{loop { break 1e3 }, ({ ("é") }), unsafe { idu(x) }, classes!()}; let h2 = input!(data_x = 'q: { break 'q x }, buffer = bool!({ k }),); let h3 = iframe![t1 = h1, abbr!(idm!(y) = P0 { a: "other", b: idm!(x) }.b, W0(({ let q = y; q })), h2), div = bool!((false))]; let h4 = label!({ "blk" } = frag!(), h3); end(b, h4) } _ => { let h1 = iframe![t1 = classes!{loop { break 1e3 }, ({ ("é") }), unsafe { idu(x) }, classes!()}, abbr!(idm!(y) = P0 { a: "other", b: idm!(x) }.b, W0(({ let q = y; q })), input!(data_x = 'q: { break 'q x }, buffer = bool!({ k }),)), div = bool!((false))]; let h2 = label!({ "blk" } = frag!(), h1); end(b, h2) } } }
    h_18_g015(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); if k { lit("<var "); esc(x); lit("=\""); esc(x); lit("<"); esc(x); lit("\">"); if k { esc(y); } lit("255</var>"); } match choose(3) { 0 => { end(b, frag![frag_match!(if k { var!([x][0] = iter!("<", [x, (x)]), if { k } { Some(y) } else { None }, frag!(u8::MAX)) })]) } 1 => { let h1 = frag!(u8::MAX); let h2 = var!([x][0] = iter!("<", [x, (x)]), if { k } { Some(y) } else { None }, h1); let h3 = frag![frag_match!(if k { h2 })]; end(b, h3) } _ => {  end(b, frag![frag_match!(if k { var!([x][0] = iter!("<", [x, (x)]), if { k } { Some(y) } else { None }, frag!(u8::MAX)) })]) } } }
    h_18_g016(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("9 <area c=\"UP\"> <h5 name=\""); esc(x); lit("\">0123456789012345678901234567890123456789"); if k || k { lit("1.50"); } else if k { lit("255"); } else { lit("0"); } esc(y); lit("</h5>"); match choose(3) { 0 => { end(b, classes!(3i8.pow(2), area!['c' = "UP"], h5!({ "0123456789012345678901234567890123456789" }, frag_match!(if k || k { const0!("1.50") } else if idb(k) { ({ (0xff) }) } else { 0 }), y, name = *&x))) } 1 => { let h1 = area!['c' = "UP"]; let h2 = h5!({ "0123456789012345678901234567890123456789" }, frag_match!(if k || k { const0!("1.50") } else if idb(k) { ({ (0xff) }) } else { 0 }), y, name = *&x); let h3 = classes!(3i8.pow(2), h1, h2); end(b, h3) } _ => { let h1 = classes!(3i8.pow(2), area!['c' = "UP"], h5!({ "0123456789012345678901234567890123456789" }, frag_match!(if k || k { const0!("1.50") } else if idb(k) { ({ (0xff) }) } else { 0 }), y, name = *&x)); end(b, h1) } } }
    h_18_g017(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<rt "); esc(x); lit("=\"UP\"><ins href=\"0\"><select :bind=\"9\">"); esc(x); lit("</select>"); if !k { lit("<h2"); if !k { lit(" static"); } if k { lit(" _u"); } if k { lit(" é"); } lit("></h2>"); } lit("<address>"); esc(x); if k { lit("<input>"); } else { lit_dec(v as u32); esc(x); esc(y); esc(x); } lit("</address></ins>0</rt>"); match choose(4) { 0 => { end(b, rt![ins!(select!{("other", x).1, ":bind" = 9u8}, if k ^ true { Some(h2![r#static = bool!(!k), _u = bool!((k)), "é" = bool!(S0.m(k))]) } else { None }, frag!({ "\0"; }, classes!(),), href = ("0"), laby::address!(*&x, frag_match!(if !!k { input![] } else { frag![v as u32, S0.m(idm!(x)), y, P0 { a: "other", b: x }.b,] }),)), match 0 { _ => "0" }, S0.m(x) = idf("UP")]) } 1 => { let h1 = select!{("other", x).1, ":bind" = 9u8}; let h2 = h2![r#static = bool!(!k), _u = bool!((k)), "é" = bool!(S0.m(k))]; let h3 = frag!({ "\0"; }, classes!(),); let h4 = input![]; let h5 = frag![v as u32, S0.m(idm!(x)), y, P0 { a: "other", b: x }.b,]; let h6 = address!(*&x, frag_match!(if !!k { h4 } else { h5 }),); let h7 = ins!(h1, if k ^ true { Some(h2) } else { None }, h3, href = ("0"), {h6}); let h8 = rt![h7, match 0 { _ => "0" }, S0.m(x) = idf("UP")]; end(b, h8) } 2 => { let h1 = select!{("other", x).1, ":bind" = 9u8}; let h2 = frag![v as u32, S0.m(idm!(x)), y, P0 { a: "other", b: x }.b,]; let h3 = address!(*&x, frag_match!(if !!k { input![] } else { h2 }),); let h4 = ins!(h1, if k ^ true { Some(h2![r#static = bool!(!k), _u = bool!((k)), "é" = bool!(S0.m(k))]) } else { None }, frag!({ "\0"; }, classes!(),), href = ("0"), {h3}); end(b, rt![h4, match 0 { _ => "0" }, S0.m(x) = idf("UP")]) } _ => { let h1 = select!{("other", x).1, ":bind" = 9u8}; let h2 = input![]; let h3 = address!(*&x, frag_match!(if !!k { h2 } else { frag![v as u32, S0.m(idm!(x)), y, P0 { a: "other", b: x }.b,] }),); let h4 = ins!(h1, if k ^ true { Some(h2![r#static = bool!(!k), _u = bool!((k)), "é" = bool!(S0.m(k))]) } else { None }, frag!({ "\0"; }, classes!(),), href = ("0"), {h3}); let h5 = rt![h4, match 0 { _ => "0" }, S0.m(x) = idf("UP")]; end(b, h5) } } }
    h_18_g018(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("&#39;<a "); esc(y); lit("=\""); esc(y); lit("\""); if k { lit(" s"); } lit(">"); if !k { esc(y); } else { esc(x); } lit("<"); esc(x); lit("<hr"); if k && k { lit(" yield"); } lit(">a\r\nb a\r\nb</a>"); match choose(4) { 0 => { end(b, frag!{frag!(match 0 { _ => "'" }), frag!(frag!()), Some(a!(idf(y) = y, S0.m("s") = bool!(S0.m(k)), { let _ = 1; }, iter!("<", [if k ^ true { y } else { x }, x]), hr!(r#yield = bool!(k && k)), classes!(const0!("a\r\nb"), concat!("a\r\nb", ""),)))}) } 1 => { let h1 = frag!(match 0 { _ => "'" }); let h2 = hr!(r#yield = bool!(k && k)); let h3 = classes!(const0!("a\r\nb"), concat!("a\r\nb", ""),); let h4 = a!(idf(y) = y, S0.m("s") = bool!(S0.m(k)), { let _ = 1; }, iter!("<", [if k ^ true { y } else { x }, x]), h2, h3); let h5 = frag!{h1, frag!(frag!()), Some({h4})}; end(b, h5) } 2 => { let h1 = frag!(match 0 { _ => "'" }); let h2 = hr!(r#yield = bool!(k && k)); let h3 = classes!(const0!("a\r\nb"), concat!("a\r\nb", ""),); let h4 = frag!{h1, frag!(frag!()), Some(a!(idf(y) = y, S0.m("s") = bool!(S0.m(k)), { let _ = 1; }, iter!("<", [if k ^ true { y } else { x }, x]), h2, h3))}; end(b, h4) } _ => { let h1 = frag!(match 0 { _ => "'" }); let h2 = classes!(const0!("a\r\nb"), concat!("a\r\nb", ""),); end(b, frag!{h1, frag!(frag!()), Some(a!(idf(y) = y, S0.m("s") = bool!(S0.m(k)), { let _ = 1; }, iter!("<", [if k ^ true { y } else { x }, x]), hr!(r#yield = bool!(k && k)), h2))}) } } }
    h_18_g019(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<style "); esc(x); lit("=\""); if v == 0 { lit("<base v-on:a.b=\"\" "); esc(x); lit("=\""); esc(x); lit("\" x>"); } else if v < 10 { lit("<param "); esc(x); lit("=\"\">"); } else { lit("many"); } lit("\"><rp><textarea lang=\""); lit(if k { "true" } else { "false" }); lit("\">-1.5<source t1=\"&amp;#39;\" "); esc(y); lit("=\"2\" onclick=\""); esc(x); lit(" "); lit_dec(v as u32); lit("\">"); esc(x); lit("&quot;</textarea><meter>"); lit_dec(v as u32); lit("</meter>long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt;</rp><mark a1=\"abc\" value=\" "); esc(x); lit(" "); esc(x); lit(" UP\">\u{feff}"); esc(y); lit("</mark></style>"); match choose(4) { 0 => { end(b, style!(Some(x) = frag_match!(match v { 0 => base!["v-on:a.b" = classes!(), { let q = x; q } = loop { break (x) }, x = bool!((true))], 1..=9 => param!(idm!(x) = classes![],), _ => "many" }), rp!(textarea!(-1.5, source!{t1 = if true { "&#39;" } else { "&#39;" }, Some(y) = (1, 2).1, onclick = classes![&x[..], v as u32]}, &x[..], lang = classes!(idb(k)), classes!(match 0 { _ => "\"" })), meter![frag!(v)], if true { "long text that goes on and on & on, past thirty two bytes <i>" } else { "long text that goes on and on & on, past thirty two bytes <i>" }), frag![{ let q = mark!(({ ("\u{feff}") }), a1 = const0!("abc"), y, value = classes!{(), Some(x), { let q = idf; q(x) }, ("UP")}); q }])) } 1 => { let h1 = classes!(); let h2 = base!["v-on:a.b" = h1, { let q = x; q } = loop { break (x) }, x = bool!((true))]; let h3 = classes![]; let h4 = param!(idm!(x) = h3,); let h5 = classes!(idb(k)); let h6 = classes![&x[..], v as u32]; let h7 = source!{t1 = if true { "&#39;" } else { "&#39;" }, Some(y) = (1, 2).1, onclick = h6}; let h8 = classes!(match 0 { _ => "\"" }); let h9 = textarea!(-1.5, h7, &x[..], lang = h5, h8); let h10 = frag!(v); let h11 = meter![h10]; let h12 = rp!(h9, h11, if true { "long text that goes on and on & on, past thirty two bytes <i>" } else { "long text that goes on and on & on, past thirty two bytes <i>" }); let h13 = classes!{(), Some(x), { let q = idf; q(x) }, ("UP")}; let h14 = mark!(({ ("\u{feff}") }), a1 = const0!("abc"), y, value = h13); let h15 = frag![{ let q = {h14}; q }]; let h16 = style!(Some(x) = frag_match!(match v { 0 => h2, 1..=9 => h4, _ => "many" }), h12, h15); end(b, h16) } 2 => { let h1 = classes!(); let h2 = base!["v-on:a.b" = h1, { let q = x; q } = loop { break (x) }, x = bool!((true))]; let h3 = classes![]; let h4 = param!(idm!(x) = h3,); let h5 = classes![&x[..], v as u32]; let h6 = classes!(match 0 { _ => "\"" }); let h7 = textarea!(-1.5, source!{t1 = if true { "&#39;" } else { "&#39;" }, Some(y) = (1, 2).1, onclick = h5}, &x[..], lang = classes!(idb(k)), h6); let h8 = frag!(v); let h9 = meter![h8]; let h10 = rp!(h7, h9, if true { "long text that goes on and on & on, past thirty two bytes <i>" } else { "long text that goes on and on & on, past thirty two bytes <i>" }); let h11 = frag![{ let q = mark!(({ ("\u{feff}") }), a1 = const0!("abc"), y, value = classes!{(), Some(x), { let q = idf; q(x) }, ("UP")}); q }]; let h12 = style!(Some(x) = frag_match!(match v { 0 => h2, 1..=9 => h4, _ => "many" }), h10, h11); end(b, h12) } _ => { let h1 = classes![]; let h2 = rp!(textarea!(-1.5, source!{t1 = if true { "&#39;" } else { "&#39;" }, Some(y) = (1, 2).1, onclick = classes![&x[..], v as u32]}, &x[..], lang = classes!(idb(k)), classes!(match 0 { _ => "\"" })), meter![frag!(v)], if true { "long text that goes on and on & on, past thirty two bytes <i>" } else { "long text that goes on and on & on, past thirty two bytes <i>" }); let h3 = classes!{(), Some(x), { let q = idf; q(x) }, ("UP")}; end(b, style!(Some(x) = frag_match!(match v { 0 => base!["v-on:a.b" = classes!(), { let q = x; q } = loop { break (x) }, x = bool!((true))], 1..=9 => param!(idm!(x) = h1,), _ => "many" }), h2, frag![{ let q = mark!(({ ("\u{feff}") }), a1 = const0!("abc"), y, value = h3); q }])) } } }
    h_18_g020(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<output "); esc(y); lit("=\""); lit(if k { "true" } else { "false" }); lit("\" del=\"0\" static=\""); if k { esc(x); } else { esc(x); } lit("\"><hgroup>  two  "); esc(y); lit("é"); lit(if !k { "true" } else { "false" }); lit("<img "); esc(y); lit("=\""); lit(if !k { "true" } else { "false" }); lit("\" lang=\"&amp;amp; "); esc(x); lit("\"></hgroup>false</output>"); match choose(4) { 0 => { end(b, output!(hgroup!(frag!(frag!({ ""; }, "  two  ", ("other", y).1), 'é'), (k ^ true), frag!(img!({ let q = y; q } = (k ^ true), lang = classes!{"&amp;", idm!(("other", x).1)}))), S0.m(y) = ((|| k)()), del = 0, !true, r#static = classes!(idm!(Some(match k { true => x, false => x }).unwrap())))) } 1 => { let h1 = classes!(idm!(Some(match k { true => x, false => x }).unwrap())); let h2 = frag!({ ""; }, "  two  ", ("other", y).1); let h3 = frag!(h2, 'é'); let h4 = classes!{"&amp;", idm!(("other", x).1)}; let h5 = img!({ let q = y; q } = (k ^ true), lang = h4); let h6 = frag!(h5); let h7 = hgroup!(h3, (k ^ true), h6); let h8 = output!(h7, S0.m(y) = ((|| k)()), del = 0, !true, r#static = h1); end(b, h8) } 2 => { let h1 = output!(hgroup!(frag!(frag!({ ""; }, "  two  ", ("other", y).1), 'é'), (k ^ true), frag!(img!({ let q = y; q } = (k ^ true), lang = classes!{"&amp;", idm!(("other", x).1)}))), S0.m(y) = ((|| k)()), del = 0, !true, r#static = classes!(idm!(Some(match k { true => x, false => x }).unwrap()))); end(b, h1) } _ => { let h1 = classes!{"&amp;", idm!(("other", x).1)}; let h2 = frag!(img!({ let q = y; q } = (k ^ true), lang = h1)); end(b, output!(hgroup!(frag!(frag!({ ""; }, "  two  ", ("other", y).1), 'é'), (k ^ true), h2), S0.m(y) = ((|| k)()), del = 0, !true, r#static = classes!(idm!(Some(match k { true => x, false => x }).unwrap())))) } } }
    h_18_g021(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<output "); esc(y); lit("=\""); lit(if !k { "true" } else { "false" }); lit("\" é=\""); esc(x); lit("\" static=\""); esc(y); lit("\">"); esc(x); lit("</output>"); match choose(3) { 0 => { end(b, output!(idf(y) = !k, x, "é" = frag!((|| x)()), classes!{}, r#static = frag!({ "</p>"; }, *&y))) } 1 => { let h1 = frag!((|| x)()); let h2 = frag!({ "</p>"; }, *&y); let h3 = classes!{}; let h4 = output!(idf(y) = !k, x, "é" = h1, h3, r#static = h2); end(b, h4) } _ => {  end(b, output!(idf(y) = !k, x, "é" = frag!((|| x)()), classes!{}, r#static = frag!({ "</p>"; }, *&y))) } } }
    h_18_g022(b) { let x = t(1); lit("<ruby "); esc(x); lit("=\""); esc(x); lit("\"><del "); esc(x); lit("=\"false\"><script></script></del>&lt;<label data-x=\"0123456789abcdef&lt;\"><param></label>``</ruby>"); match choose(4) { 0 => { end(b, ruby![del!(Some(x) = !true, script!()), if true { "<" } else { "<" }, Some(label!("data-x" = "0123456789abcdef<", param!())), match 0 { _ => "``" }, { let q = x; q } = { x }]) } 1 => { let h1 = script!(); let h2 = del!(Some(x) = !true, h1); let h3 = param!(); let h4 = label!("data-x" = "0123456789abcdef<", h3); let h5 = ruby![h2, if true { "<" } else { "<" }, Some({h4}), match 0 { _ => "``" }, { let q = x; q } = { x }]; end(b, h5) } 2 => { let h1 = del!(Some(x) = !true, script!()); let h2 = param!(); let h3 = ruby![h1, if true { "<" } else { "<" }, Some(label!("data-x" = "0123456789abcdef<", h2)), match 0 { _ => "``" }, { let q = x; q } = { x }]; end(b, h3) } _ => { let h1 = script!(); let h2 = label!("data-x" = "0123456789abcdef<", param!()); let h3 = ruby![del!(Some(x) = !true, h1), if true { "<" } else { "<" }, Some({h2}), match 0 { _ => "``" }, { let q = x; q } = { x }]; end(b, h3) } } }
    h_18_g023(b) { let x = t(1); let k = bool_(); let l = bool_(); lit("<caption>"); if k { if k { esc(x); } } else if !k { lit("a&lt;b <area>"); } else { lit("0"); } lit("</caption>"); match choose(4) { 0 => { end(b, caption!{classes!{}, frag_match!(if { k } { if k { Some(x) } else { None } } else if k ^ true { classes!{const0!("a<b"), area!{}} } else { 0 }),}) } 1 => { let h1 = classes!{}; let h2 = area!{}; let h3 = classes!{const0!("a<b"), h2}; let h4 = caption!{h1, frag_match!(if { k } { if k { Some(x) } else { None } } else if k ^ true { h3 } else { 0 }),}; end(b, h4) } 2 => { let h1 = area!{}; let h2 = classes!{const0!("a<b"), h1}; end(b, caption!{classes!{}, frag_match!(if { k } { if k { Some(x) } else { None } } else if k ^ true { h2 } else { 0 }),}) } _ => { let h1 = classes!{}; let h2 = classes!{const0!("a<b"), area!{}}; end(b, caption!{h1, frag_match!(if { k } { if k { Some(x) } else { None } } else if k ^ true { h2 } else { 0 }),}) } } }
    h_18_g024(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<tfoot></tfoot><pre wrap=\""); lit(x); lit("\"></pre><title><br><embed title=\""); if k { esc(x); } else { esc(x); } lit("\""); if k { lit(" id"); } lit(">"); esc(x); lit("</title>&lt;"); match choose(4) { 0 => { end(b, frag![idm!(tfoot!()), pre!((("wrap")) = raw!({ x }), { let q = x; q } = bool!(({ (false) })),), frag!(title!(br![], embed![title = match k { true => x, false => x }, id = bool!((|| k)())], { x }), loop { break '<' })]) } 1 => { let h1 = tfoot!(); let h2 = pre!((("wrap")) = raw!({ x }), { let q = x; q } = bool!(({ (false) })),); let h3 = br![]; let h4 = embed![title = match k { true => x, false => x }, id = bool!((|| k)())]; let h5 = title!(h3, h4, { x }); let h6 = frag!(h5, loop { break '<' }); let h7 = frag![idm!({h1}), h2, h6]; end(b, h7) } 2 => { let h1 = pre!((("wrap")) = raw!({ x }), { let q = x; q } = bool!(({ (false) })),); let h2 = embed![title = match k { true => x, false => x }, id = bool!((|| k)())]; let h3 = frag!(title!(br![], h2, { x }), loop { break '<' }); end(b, frag![idm!(tfoot!()), h1, h3]) } _ => { let h1 = br![]; end(b, frag![idm!(tfoot!()), pre!((("wrap")) = raw!({ x }), { let q = x; q } = bool!(({ (false) })),), frag!(title!(h1, embed![title = match k { true => x, false => x }, id = bool!((|| k)())], { x }), loop { break '<' })]) } } }
    h_18_g025(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<iframe onclick=\"\" "); esc(y); lit("=\""); esc(x); lit("\" del=\""); lit_dec(v as u32); lit("\"><optgroup><embed>"); lit(y); lit("</optgroup><section>"); if v == 0 { lit("<img s=\""); lit(if k { "true" } else { "false" }); lit("\" type=\"\">"); } else if v < 10 { lit("<link é=\""); esc(y); lit("\" x:y=\"\" "); esc(y); lit("=\""); esc(x); lit("\">"); } else { lit("many"); } if k || k { esc(y); } lit("</section>{<param"); if k { lit(" Value"); } lit(" name=\" 255\">|dflt}</iframe>"); match choose(4) { 0 => { end(b, iframe!(onclick = "", frag!(optgroup!(embed!(), laby::raw!(y)), cmp0!(frag_match!(match v { 0 => img!(S0.m("s") = S0.m(k), r#type = classes!()), 1..=9 => link!("é" = y, "x:y" = classes!(), [y][0] = { let q = idf; q(("other", x).1) },), _ => "many" }), if k || k { Some(y) } else { None }), None::<&str>, classes!(),), S0.m(y) = unsafe { idu(x) }, cmp1!(a = frag!(param!{Value = bool!(idb(k)), name = classes!{"", u8::MAX}})), del = v as u32)) } 1 => { let h1 = embed!(); let h2 = optgroup!(h1, laby::raw!(y)); let h3 = classes!(); let h4 = img!(S0.m("s") = S0.m(k), r#type = h3); let h5 = classes!(); let h6 = link!("é" = y, "x:y" = h5, [y][0] = { let q = idf; q(("other", x).1) },); let h7 = frag!(h2, cmp0!(frag_match!(match v { 0 => h4, 1..=9 => h6, _ => "many" }), if k || k { Some(y) } else { None }), None::<&str>, classes!(),); let h8 = classes!{"", u8::MAX}; let h9 = param!{Value = bool!(idb(k)), name = h8}; let h10 = frag!(h9); let h11 = tr!({ { y } } = [1, 2, 3].len(), x); let h12 = iframe!(onclick = "", h7, S0.m(y) = unsafe { idu(x) }, cmp1!(a = h10), del = v as u32); end(b, h12) } 2 => { let h1 = optgroup!(embed!(), laby::raw!(y)); let h2 = img!(S0.m("s") = S0.m(k), r#type = classes!()); let h3 = classes!(); let h4 = link!("é" = y, "x:y" = h3, [y][0] = { let q = idf; q(("other", x).1) },); let h5 = classes!{"", u8::MAX}; let h6 = frag!(param!{Value = bool!(idb(k)), name = h5}); end(b, iframe!(onclick = "", frag!(h1, cmp0!(frag_match!(match v { 0 => h2, 1..=9 => h4, _ => "many" }), if k || k { Some(y) } else { None }), None::<&str>, classes!(),), S0.m(y) = unsafe { idu(x) }, cmp1!(a = h6), del = v as u32)) } _ => { let h1 = param!{Value = bool!(idb(k)), name = classes!{"", u8::MAX}}; let h2 = tr!({ { y } } = [1, 2, 3].len(), x); let h3 = iframe!(onclick = "", frag!(optgroup!(embed!(), laby::raw!(y)), cmp0!(frag_match!(match v { 0 => img!(S0.m("s") = S0.m(k), r#type = classes!()), 1..=9 => link!("é" = y, "x:y" = classes!(), [y][0] = { let q = idf; q(("other", x).1) },), _ => "many" }), if k || k { Some(y) } else { None }), None::<&str>, classes!(),), S0.m(y) = unsafe { idu(x) }, cmp1!(a = frag!(h1)), del = v as u32); end(b, h3) } } }
    h_18_g026(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<bdo x:y=\""); esc(x); lit(", "); esc(x); lit("\" _u=\"&gt;\" onclick=\"e\u{301}\"><link><del>2<details>"); if k { esc(x); } else { esc(x); } esc(x); lit(if k { "true" } else { "false" }); lit("</details></del><dfn s=\"long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt;\" frag=\"\r\"></dfn></bdo>"); match choose(4) { 0 => { end(b, bdo!(link!(), del!(10 % 4, Some(details!(iter!([if { k } { x } else { x }, { let q = idf; q(S0.m(x)) }]), S0.m(k)))), "x:y" = iter!(", ", [idf(x), x as &str]), dfn![S0.m("s") = idf("long text that goes on and on & on, past thirty two bytes <i>"), frag = ("\r")], _u = match 0 { _ => ">" }, onclick = ({ ("e\u{301}") }), Some(()),)) } 1 => { let h1 = link!(); let h2 = details!(iter!([if { k } { x } else { x }, { let q = idf; q(S0.m(x)) }]), S0.m(k)); let h3 = del!(10 % 4, Some({h2})); let h4 = dfn![S0.m("s") = idf("long text that goes on and on & on, past thirty two bytes <i>"), frag = ("\r")]; let h5 = bdo!(h1, h3, "x:y" = iter!(", ", [idf(x), x as &str]), h4, _u = match 0 { _ => ">" }, onclick = ({ ("e\u{301}") }), Some(()),); end(b, h5) } 2 => { let h1 = details!(iter!([if { k } { x } else { x }, { let q = idf; q(S0.m(x)) }]), S0.m(k)); let h2 = del!(10 % 4, Some({h1})); let h3 = bdo!(link!(), h2, "x:y" = iter!(", ", [idf(x), x as &str]), dfn![S0.m("s") = idf("long text that goes on and on & on, past thirty two bytes <i>"), frag = ("\r")], _u = match 0 { _ => ">" }, onclick = ({ ("e\u{301}") }), Some(()),); end(b, h3) } _ => { let h1 = link!(); let h2 = details!(iter!([if { k } { x } else { x }, { let q = idf; q(S0.m(x)) }]), S0.m(k)); let h3 = dfn![S0.m("s") = idf("long text that goes on and on & on, past thirty two bytes <i>"), frag = ("\r")]; let h4 = bdo!(h1, del!(10 % 4, Some({h2})), "x:y" = iter!(", ", [idf(x), x as &str]), h3, _u = match 0 { _ => ">" }, onclick = ({ ("e\u{301}") }), Some(()),); end(b, h4) } } }
    h_18_g027(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<q><kbd><param>3.0<link frag=\";\" "); esc(x); lit("=\""); esc(y); lit("\"><area href=\""); esc(x); lit(" "); lit(y); lit("\" :bind=\""); lit(if !k { "true" } else { "false" }); lit("\"></kbd><embed @click=\""); lit(y); lit("\"><b><label>abc"); esc(x); lit("<"); esc(y); lit("</label>"); lit(x); lit("</b></q>"); match choose(4) { 0 => { end(b, q!(kbd!(frag!(param!(), frag!{if true { 3f32 } else { 3f32 }}, link!(frag = ({ (";") }), { { x } } = (y)), area!{href = classes![x as &str, raw!({ y })], ":bind" = (k ^ true)})), embed!("@click" = raw!({ y })), b!(label!{"abc", iter!("<", [x, S0.m((|| y)())]),}, raw!({ x })))) } 1 => { let h1 = param!(); let h2 = frag!{if true { 3f32 } else { 3f32 }}; let h3 = link!(frag = ({ (";") }), { { x } } = (y)); let h4 = classes![x as &str, raw!({ y })]; let h5 = area!{href = h4, ":bind" = (k ^ true)}; let h6 = frag!(h1, h2, h3, h5); let h7 = kbd!(h6); let h8 = embed!("@click" = raw!({ y })); let h9 = label!{"abc", iter!("<", [x, S0.m((|| y)())]),}; let h10 = b!(h9, raw!({ x })); let h11 = q!(h7, h8, h10); end(b, h11) } 2 => { let h1 = param!(); let h2 = frag!{if true { 3f32 } else { 3f32 }}; let h3 = link!(frag = ({ (";") }), { { x } } = (y)); let h4 = kbd!(frag!(h1, h2, h3, area!{href = classes![x as &str, raw!({ y })], ":bind" = (k ^ true)})); let h5 = b!(label!{"abc", iter!("<", [x, S0.m((|| y)())]),}, raw!({ x })); end(b, q!(h4, embed!("@click" = raw!({ y })), h5)) } _ => { let h1 = frag!(param!(), frag!{if true { 3f32 } else { 3f32 }}, link!(frag = ({ (";") }), { { x } } = (y)), area!{href = classes![x as &str, raw!({ y })], ":bind" = (k ^ true)}); let h2 = kbd!(h1); let h3 = label!{"abc", iter!("<", [x, S0.m((|| y)())]),}; let h4 = q!(h2, embed!("@click" = raw!({ y })), b!(h3, raw!({ x }))); end(b, h4) } } }
    h_18_g028(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<h3><hgroup>"); esc(y); lit(" <link> <wbr> "); esc(y); lit("<small "); esc(y); lit(">"); if k { esc(x); } else { esc(y); } lit("</small></hgroup><article aria-label=\"-5\"><i Value=\""); lit(if k { "true" } else { "false" }); lit("\">3<area onclick=\""); lit(y); lit(" {{}} "); esc(x); lit(" "); esc(x); lit("\" "); esc(y); lit("=\"x y\">"); if k { esc(y); } else { esc(x); } lit("</i></article></h3>"); match choose(4) { 0 => { end(b, h3!(hgroup!(classes!(P0 { a: "other", b: y }.b, link!(), wbr!{}, core::convert::identity::<&str>(y)), idm!(small!(Some(y) = bool!({ true }), if (|| k)() { x } else { y }))), article!(i![1 + 2, area!(onclick = classes!(laby::raw!(y), "{{}}", x, &x[..]), S0.m(y) = ({ ("x y") })), Value = S0.m(k), if (|| k)() { y } else { x }], "aria-label" = -5,))) } 1 => { let h1 = link!(); let h2 = wbr!{}; let h3 = classes!(P0 { a: "other", b: y }.b, h1, h2, core::convert::identity::<&str>(y)); let h4 = small!(Some(y) = bool!({ true }), if (|| k)() { x } else { y }); let h5 = hgroup!(h3, idm!({h4})); let h6 = classes!(laby::raw!(y), "{{}}", x, &x[..]); let h7 = area!(onclick = h6, S0.m(y) = ({ ("x y") })); let h8 = i![1 + 2, h7, Value = S0.m(k), if (|| k)() { y } else { x }]; let h9 = article!(h8, "aria-label" = -5,); let h10 = h3!(h5, h9); end(b, h10) } 2 => { let h1 = link!(); let h2 = classes!(P0 { a: "other", b: y }.b, h1, wbr!{}, core::convert::identity::<&str>(y)); let h3 = hgroup!(h2, idm!(small!(Some(y) = bool!({ true }), if (|| k)() { x } else { y }))); let h4 = area!(onclick = classes!(laby::raw!(y), "{{}}", x, &x[..]), S0.m(y) = ({ ("x y") })); let h5 = i![1 + 2, h4, Value = S0.m(k), if (|| k)() { y } else { x }]; let h6 = article!(h5, "aria-label" = -5,); let h7 = h3!(h3, h6); end(b, h7) } _ => { let h1 = classes!(P0 { a: "other", b: y }.b, link!(), wbr!{}, core::convert::identity::<&str>(y)); let h2 = hgroup!(h1, idm!(small!(Some(y) = bool!({ true }), if (|| k)() { x } else { y }))); end(b, h3!(h2, article!(i![1 + 2, area!(onclick = classes!(laby::raw!(y), "{{}}", x, &x[..]), S0.m(y) = ({ ("x y") })), Value = S0.m(k), if (|| k)() { y } else { x }], "aria-label" = -5,))) } } }
    h_18_g029(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<th bool=\"<input x:y=\""); esc(x); lit("\" "); esc(y); lit("=\"9\" Value=\""); esc(x); lit("\">\" "); esc(y); lit("=\"data-x\">1.5</th><meta><input del=\""); esc(x); lit("\""); if k { lit(" bool"); } lit(">"); match choose(4) { 0 => { end(b, frag!({ th!(bool = input!("x:y" = ({ let q = idf; q(x) }), [y][0] = 3i8.pow(2), Value = (x)), match 0 { _ => 1.5 }, idf(y) = ("data-x")) }, meta!(), input!{del = x, bool = bool!(!!k),})) } 1 => { let h1 = input!("x:y" = ({ let q = idf; q(x) }), [y][0] = 3i8.pow(2), Value = (x)); let h2 = th!(bool = h1, match 0 { _ => 1.5 }, idf(y) = ("data-x")); let h3 = meta!(); let h4 = input!{del = x, bool = bool!(!!k),}; let h5 = frag!({ {h2} }, h3, h4); end(b, h5) } 2 => { let h1 = input!("x:y" = ({ let q = idf; q(x) }), [y][0] = 3i8.pow(2), Value = (x)); let h2 = th!(bool = h1, match 0 { _ => 1.5 }, idf(y) = ("data-x")); let h3 = meta!(); end(b, frag!({ {h2} }, h3, input!{del = x, bool = bool!(!!k),})) } _ => { let h1 = th!(bool = input!("x:y" = ({ let q = idf; q(x) }), [y][0] = 3i8.pow(2), Value = (x)), match 0 { _ => 1.5 }, idf(y) = ("data-x")); let h2 = input!{del = x, bool = bool!(!!k),}; end(b, frag!({ {h1} }, meta!(), h2)) } } }
    h_18_g030(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<iframe"); if k { lit(" é"); } lit("><summary"); if k && k { lit(" aria-label"); } lit("><blockquote "); esc(x); lit("=\"<param title=\"\" q&#39;&lt;=\""); if k { esc(x); } lit("\" t1=\""); esc(x); lit("\">\"><img"); if k && l { lit(" :bind"); } lit("><col></blockquote>"); if k && k {  } lit("="); esc(x); if !k { esc(y); } lit("</summary></iframe>"); match choose(4) { 0 => { end(b, iframe!{summary!(blockquote!(img!(":bind" = bool!(k && l)), { x } = bool!({ false }), col![], Some(x) = param!(title = classes!{}, "q'<" = if (k) { Some(x) } else { None }, t1 = W0(x))), "aria-label" = bool!(k && k), frag_match!(if k && k { { (); } }), frag!(idf("="), frag!(W0(x), if !k { Some(y) } else { None }, Some(()), {}))), "é" = bool!(S0.m(k))}) } 1 => { let h1 = classes!{}; let h2 = param!(title = h1, "q'<" = if (k) { Some(x) } else { None }, t1 = W0(x)); let h3 = img!(":bind" = bool!(k && l)); let h4 = col![]; let h5 = blockquote!(h3, { x } = bool!({ false }), h4, Some(x) = h2); let h6 = frag!(W0(x), if !k { Some(y) } else { None }, Some(()), {}); let h7 = frag!(idf("="), h6); let h8 = summary!(h5, "aria-label" = bool!(k && k), frag_match!(if k && k { { (); } }), h7); let h9 = iframe!{h8, "é" = bool!(S0.m(k))}; end(b, h9) } 2 => { let h1 = classes!{}; let h2 = param!(title = h1, "q'<" = if (k) { Some(x) } else { None }, t1 = W0(x)); let h3 = summary!(blockquote!(img!(":bind" = bool!(k && l)), { x } = bool!({ false }), col![], Some(x) = h2), "aria-label" = bool!(k && k), frag_match!(if k && k { { (); } }), frag!(idf("="), frag!(W0(x), if !k { Some(y) } else { None }, Some(()), {}))); end(b, iframe!{h3, "é" = bool!(S0.m(k))}) } _ => { let h1 = iframe!{summary!(blockquote!(img!(":bind" = bool!(k && l)), { x } = bool!({ false }), col![], Some(x) = param!(title = classes!{}, "q'<" = if (k) { Some(x) } else { None }, t1 = W0(x))), "aria-label" = bool!(k && k), frag_match!(if k && k { { (); } }), frag!(idf("="), frag!(W0(x), if !k { Some(y) } else { None }, Some(()), {}))), "é" = bool!(S0.m(k))}; end(b, h1) } } }
    h_18_g031(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<article><del style=\""); esc(y); lit("<"); esc(x); lit("\""); if k || k { lit(" data-x"); } lit("><style "); esc(y); lit("=\" \"></style><li x:y=\"\" 7=\"true\">-1.5</li></del><input 7=\""); lit_dec(v as u32); lit("\">-1.5<button "); esc(x); lit("=\""); lit(x); lit("\"></button></article>"); match choose(4) { 0 => { end(b, article!(del!(style = classes!(iter!("<", [unsafe { idu(y) }, *&x])), style!(S0.m(y) = classes!(frag!(), ())), li!(-1.5, "x:y" = frag!(), 7 = classes!(2 == 3 || 4 == 4)), "data-x" = bool!(k || k)), input!(mk::SEV = v as u32, r#fn = bool!({ false })), -1.5, button!({ { x } } = laby::raw!(x)))) } 1 => { let h1 = classes!(iter!("<", [unsafe { idu(y) }, *&x])); let h2 = classes!(frag!(), ()); let h3 = style!(S0.m(y) = h2); let h4 = frag!(); let h5 = classes!(2 == 3 || 4 == 4); let h6 = li!(-1.5, "x:y" = h4, 7 = h5); let h7 = del!(style = h1, h3, h6, "data-x" = bool!(k || k)); let h8 = input!(mk::SEV = v as u32, r#fn = bool!({ false })); let h9 = button!({ { x } } = laby::raw!(x)); let h10 = article!(h7, h8, -1.5, h9); end(b, h10) } 2 => { let h1 = classes!(iter!("<", [unsafe { idu(y) }, *&x])); let h2 = style!(S0.m(y) = classes!(frag!(), ())); let h3 = input!(mk::SEV = v as u32, r#fn = bool!({ false })); let h4 = button!({ { x } } = laby::raw!(x)); end(b, article!(del!(style = h1, h2, li!(-1.5, "x:y" = frag!(), 7 = classes!(2 == 3 || 4 == 4)), "data-x" = bool!(k || k)), h3, -1.5, h4)) } _ => { let h1 = classes!(frag!(), ()); let h2 = style!(S0.m(y) = h1); let h3 = frag!(); let h4 = classes!(2 == 3 || 4 == 4); let h5 = input!(mk::SEV = v as u32, r#fn = bool!({ false })); end(b, article!(del!(style = classes!(iter!("<", [unsafe { idu(y) }, *&x])), h2, li!(-1.5, "x:y" = h3, 7 = h4), "data-x" = bool!(k || k)), h5, -1.5, button!({ { x } } = laby::raw!(x)))) } } }
    h_18_g032(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<header del=\"2\"><iframe><track true_=\""); esc(y); lit("\" yield=\""); if v > 99 { lit_dec(v as u32); } lit("\"><img p=\""); esc(x); lit("\" yield=\"\"><wbr loop=\"\" hx-get=\""); lit_dec(v as u32); lit("\" .prop=\"data-x\"></iframe><br "); esc(x); lit("=\""); if k { esc(x); } lit("\" t1=\""); lit_dec(v as u32); lit("\"></header>"); match choose(4) { 0 => { end(b, classes!{header!{del = (1, 2).1, iframe!{track!(r#true_ = P0 { a: "other", b: y }.b, r#yield = frag_match!(if v > 99 { v as u32 }),), img!(p = loop { break (x) }, r#yield = ()), wbr![r#loop = { "a"; }, "hx-get" = { v }, ".prop" = concat!("data-x", "")], {}}, br!{{ x } = if !!k { Some(x) } else { None }, t1 = { v }, "a\"b" = bool!(({ (false) }))}}}) } 1 => { let h1 = track!(r#true_ = P0 { a: "other", b: y }.b, r#yield = frag_match!(if v > 99 { v as u32 }),); let h2 = img!(p = loop { break (x) }, r#yield = ()); let h3 = wbr![r#loop = { "a"; }, "hx-get" = { v }, ".prop" = concat!("data-x", "")]; let h4 = iframe!{h1, h2, h3, {}}; let h5 = br!{{ x } = if !!k { Some(x) } else { None }, t1 = { v }, "a\"b" = bool!(({ (false) }))}; let h6 = header!{del = (1, 2).1, h4, h5}; let h7 = classes!{h6}; end(b, h7) } 2 => {  end(b, classes!{header!{del = (1, 2).1, iframe!{track!(r#true_ = P0 { a: "other", b: y }.b, r#yield = frag_match!(if v > 99 { v as u32 }),), img!(p = loop { break (x) }, r#yield = ()), wbr![r#loop = { "a"; }, "hx-get" = { v }, ".prop" = concat!("data-x", "")], {}}, br!{{ x } = if !!k { Some(x) } else { None }, t1 = { v }, "a\"b" = bool!(({ (false) }))}}}) } _ => { let h1 = img!(p = loop { break (x) }, r#yield = ()); let h2 = header!{del = (1, 2).1, iframe!{track!(r#true_ = P0 { a: "other", b: y }.b, r#yield = frag_match!(if v > 99 { v as u32 }),), h1, wbr![r#loop = { "a"; }, "hx-get" = { v }, ".prop" = concat!("data-x", "")], {}}, br!{{ x } = if !!k { Some(x) } else { None }, t1 = { v }, "a\"b" = bool!(({ (false) }))}}; end(b, classes!{h2}) } } }
    h_18_g033(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<code"); if k { lit(" é"); } if k { lit(" "); esc(x); } lit(" "); esc(x); lit("=\";\">q&quot;q<dt><menuitem></menuitem><thead></thead></dt><template>"); if k { esc(x); } lit("  "); esc(x); lit("\u{ffff}</template></code>"); match choose(4) { 0 => { end(b, code!{"é" = bool!(k), r#"q"q"#, dt!{{ let q = menuitem!({}); q }, thead!{}}, { let q = template![classes!(if (k) { Some(x) } else { None }, classes!(), x), idf("\u{ffff}")]; q }, S0.m(x) = bool!(k), idf(x) = ({ (";") }), frag![]}) } 1 => { let h1 = menuitem!({}); let h2 = thead!{}; let h3 = dt!{{ let q = {h1}; q }, h2}; let h4 = classes!(if (k) { Some(x) } else { None }, classes!(), x); let h5 = template![h4, idf("\u{ffff}")]; let h6 = frag![]; let h7 = code!{"é" = bool!(k), r#"q"q"#, h3, { let q = {h5}; q }, S0.m(x) = bool!(k), idf(x) = ({ (";") }), h6}; end(b, h7) } 2 => { let h1 = dt!{{ let q = menuitem!({}); q }, thead!{}}; let h2 = classes!(if (k) { Some(x) } else { None }, classes!(), x); let h3 = template![h2, idf("\u{ffff}")]; end(b, code!{"é" = bool!(k), r#"q"q"#, h1, { let q = {h3}; q }, S0.m(x) = bool!(k), idf(x) = ({ (";") }), frag![]}) } _ => { let h1 = dt!{{ let q = menuitem!({}); q }, thead!{}}; let h2 = template![classes!(if (k) { Some(x) } else { None }, classes!(), x), idf("\u{ffff}")]; let h3 = code!{"é" = bool!(k), r#"q"q"#, h1, { let q = {h2}; q }, S0.m(x) = bool!(k), idf(x) = ({ (";") }), frag![]}; end(b, h3) } } }
    h_18_g034(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<select buffer=\"it&#39;s\""); if k { lit(" @click"); } lit(" "); esc(x); lit(">"); lit(x); lit("<link><hr"); if !k { lit(" frag"); } lit(" "); esc(x); lit("=\""); if k { lit("<link frag=\""); esc(x); lit("\">"); } else if k { esc(y); } else { lit("0"); } lit("\" fn=\""); lit(y); lit("\">"); if v == 7 || k { esc(x); } else { esc(y); } lit("</select>"); match choose(4) { 0 => { end(b, frag!(select!{buffer = if true { "it's" } else { "it's" }, laby::raw!(x), "@click" = bool!((|| k)()), idf(x) = bool!({ true }), frag!(link![], hr!(frag = bool!(!k), (x, 1).0 = frag_match!(if !!k { link![frag = x] } else if k { idf(y) } else { 0 }), r#fn = laby::raw!(y),)), frag_match!(if v == 7 || k { core::convert::identity::<&str>(x) } else { y })},)) } 1 => { let h1 = link![]; let h2 = link![frag = x]; let h3 = hr!(frag = bool!(!k), (x, 1).0 = frag_match!(if !!k { h2 } else if k { idf(y) } else { 0 }), r#fn = laby::raw!(y),); let h4 = frag!(h1, h3); let h5 = select!{buffer = if true { "it's" } else { "it's" }, laby::raw!(x), "@click" = bool!((|| k)()), idf(x) = bool!({ true }), h4, frag_match!(if v == 7 || k { core::convert::identity::<&str>(x) } else { y })}; let h6 = frag!(h5,); end(b, h6) } 2 => { let h1 = link![frag = x]; end(b, frag!(select!{buffer = if true { "it's" } else { "it's" }, laby::raw!(x), "@click" = bool!((|| k)()), idf(x) = bool!({ true }), frag!(link![], hr!(frag = bool!(!k), (x, 1).0 = frag_match!(if !!k { h1 } else if k { idf(y) } else { 0 }), r#fn = laby::raw!(y),)), frag_match!(if v == 7 || k { core::convert::identity::<&str>(x) } else { y })},)) } _ => { let h1 = link![frag = x]; let h2 = frag!(link![], hr!(frag = bool!(!k), (x, 1).0 = frag_match!(if !!k { h1 } else if k { idf(y) } else { 0 }), r#fn = laby::raw!(y),)); end(b, frag!(select!{buffer = if true { "it's" } else { "it's" }, laby::raw!(x), "@click" = bool!((|| k)()), idf(x) = bool!({ true }), h2, frag_match!(if v == 7 || k { core::convert::identity::<&str>(x) } else { y })},)) } } }
    h_18_g035(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<th"); if k || l { lit(" :bind"); } lit("><div "); esc(x); lit("=\"\""); if k { lit(" "); esc(y); } lit(">"); esc(y); lit("<meta a1=\""); esc(y); lit("\" "); esc(x); lit("=\"&amp;#39; "); esc(x); lit("\"></div><tbody>"); esc(x); lit("</tbody></th>"); match choose(4) { 0 => { end(b, th!({ let q = div!([x][0] = Some(()), (y, 1).0 = bool!((k)), idm!(y), meta![a1 = Some([y, "other"][0]), [x][0] = classes!(({ ("&#39;") }), x as &str)]); q }, S0.m(tbody![if let Some(q) = Some(x) { q } else { "no" }]), (), ":bind" = bool!(k || l))) } 1 => { let h1 = classes!(({ ("&#39;") }), x as &str); let h2 = meta![a1 = Some([y, "other"][0]), [x][0] = h1]; let h3 = div!([x][0] = Some(()), (y, 1).0 = bool!((k)), idm!(y), h2); let h4 = tbody![if let Some(q) = Some(x) { q } else { "no" }]; let h5 = th!({ let q = {h3}; q }, S0.m({h4}), (), ":bind" = bool!(k || l)); end(b, h5) } 2 => { let h1 = classes!(({ ("&#39;") }), x as &str); let h2 = meta![a1 = Some([y, "other"][0]), [x][0] = h1]; let h3 = th!({ let q = div!([x][0] = Some(()), (y, 1).0 = bool!((k)), idm!(y), h2); q }, S0.m(tbody![if let Some(q) = Some(x) { q } else { "no" }]), (), ":bind" = bool!(k || l)); end(b, h3) } _ => { let h1 = classes!(({ ("&#39;") }), x as &str); let h2 = meta![a1 = Some([y, "other"][0]), [x][0] = h1]; let h3 = tbody![if let Some(q) = Some(x) { q } else { "no" }]; let h4 = th!({ let q = div!([x][0] = Some(()), (y, 1).0 = bool!((k)), idm!(y), h2); q }, S0.m({h3}), (), ":bind" = bool!(k || l)); end(b, h4) } } }
    h_18_g036(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); if k { esc(x); } else { esc(x); } lit(" <tr><i a&quot;b=\"<wbr lang=\""); esc(y); lit("\">\""); if k { lit(" n0"); } lit(" "); esc(x); lit("=\" \"></i>true</tr>"); match choose(4) { 0 => { end(b, classes!(if k { x } else { x }, tr!{i!("a\"b" = wbr!(lang = unsafe { idu(y) }), NM[0] = bool!(k), { { x } } = " "), 2 == 3 || 4 == 4})) } 1 => { let h1 = wbr!(lang = unsafe { idu(y) }); let h2 = i!("a\"b" = h1, NM[0] = bool!(k), { { x } } = " "); let h3 = tr!{h2, 2 == 3 || 4 == 4}; let h4 = classes!(if k { x } else { x }, h3); end(b, h4) } 2 => { let h1 = wbr!(lang = unsafe { idu(y) }); let h2 = tr!{i!("a\"b" = h1, NM[0] = bool!(k), { { x } } = " "), 2 == 3 || 4 == 4}; end(b, classes!(if k { x } else { x }, h2)) } _ => { let h1 = classes!(if k { x } else { x }, tr!{i!("a\"b" = wbr!(lang = unsafe { idu(y) }), NM[0] = bool!(k), { { x } } = " "), 2 == 3 || 4 == 4}); end(b, h1) } } }
    h_18_g037(b) { let x = t(1); let y = t(1); let k = bool_(); lit("{<legend .prop=\"\"><param x=\""); esc(y); lit("\"></legend>|dflt}<cite>"); lit(y); lit("<abbr wrap=\""); esc(y); lit("\">"); esc(y); if !k { esc(x); } else { esc(y); } esc(y); esc(x); lit("</abbr></cite>0123456789abcdef&lt;"); match choose(4) { 0 => { end(b, frag!(cmp1!(a = legend![param!{x = y}, classes!(), ".prop" = classes![""]]), cite!{laby::raw!(y), abbr!(frag!(iter!("", [y, if !k { x } else { y }]), frag!(frag!()), ("other", y).1, x), (("wrap")) = frag![({ let q = y; q }),])}, "0123456789abcdef<")) } 1 => { let h1 = classes![""]; let h2 = param!{x = y}; let h3 = classes!(); let h4 = legend![h2, h3, ".prop" = h1]; let h5 = input!{}; let h6 = link!(); let h7 = frag![({ let q = y; q }),]; let h8 = frag!(iter!("", [y, if !k { x } else { y }]), frag!(frag!()), ("other", y).1, x); let h9 = abbr!(h8, (("wrap")) = h7); let h10 = cite!{laby::raw!(y), h9}; let h11 = frag!(cmp1!(a = h4), h10, "0123456789abcdef<"); end(b, h11) } 2 => { let h1 = classes![""]; let h2 = param!{x = y}; let h3 = legend![h2, classes!(), ".prop" = h1]; let h4 = frag![({ let q = y; q }),]; let h5 = frag!(iter!("", [y, if !k { x } else { y }]), frag!(frag!()), ("other", y).1, x); end(b, frag!(cmp1!(a = h3), cite!{laby::raw!(y), abbr!(h5, (("wrap")) = h4)}, "0123456789abcdef<")) } _ => { let h1 = param!{x = y}; let h2 = classes!(); let h3 = legend![h1, h2, ".prop" = classes![""]]; let h4 = frag!(iter!("", [y, if !k { x } else { y }]), frag!(frag!()), ("other", y).1, x); let h5 = frag!(cmp1!(a = h3), cite!{laby::raw!(y), abbr!(h4, (("wrap")) = frag![({ let q = y; q }),])}, "0123456789abcdef<"); end(b, h5) } } }
    h_18_g038(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<label>"); if k { if k { esc(x); } } else if k { lit("<wbr"); if k { lit(" "); esc(x); } lit(">"); } else { lit("0"); } lit("-1.5</label>"); match choose(4) { 0 => { end(b, label![frag_match!(if k { if idb(k) { Some(x) } else { None } } else if (k) { wbr!(Some(x) = bool!(!!k)) } else { 0 }), -1.5]) } 1 => { let h1 = wbr!(Some(x) = bool!(!!k)); let h2 = label![frag_match!(if k { if idb(k) { Some(x) } else { None } } else if (k) { h1 } else { 0 }), -1.5]; end(b, h2) } 2 => {  end(b, label![frag_match!(if k { if idb(k) { Some(x) } else { None } } else if (k) { wbr!(Some(x) = bool!(!!k)) } else { 0 }), -1.5]) } _ => { let h1 = label![frag_match!(if k { if idb(k) { Some(x) } else { None } } else if (k) { wbr!(Some(x) = bool!(!!k)) } else { 0 }), -1.5]; end(b, h1) } } }
    h_18_g039(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<nav><br p=\"``\" in=\""); lit(x); lit("\">"); esc(x); if k && k { lit("<template del=\"data-x\" buffer=\""); esc(x); lit("\" q&#39;&lt;=\""); esc(x); esc(x); lit("\">\u{1f468}\u{200d}\u{1f469}</template>"); } lit("<caption "); esc(x); lit("=\""); lit_dec(v as u32); lit("\">say &quot;hi&quot;"); esc(x); lit("<meta "); esc(x); lit("=\""); esc(x); lit("  \">"); if k { esc(x); } else { esc(x); } lit("<base></caption></nav>"); match choose(4) { 0 => { end(b, nav!(br!(p = "``", r#in = raw!(x)), idm!(x), if k && k { Some(template!(del = "data-x", buffer = &x[..], "\u{1f468}\u{200d}\u{1f469}", "q'<" = iter!("", ['q: { break 'q idm!(x) }, &x[..]]))) } else { None }, caption!(frag!{frag!(if true { "say \"hi\"" } else { "say \"hi\"" }, (|| x)()), meta!{{ x } = classes!(loop { break (x) }, frag! {}, (),)}, frag_match!(if !!k { x } else { x }), base!()}, idf(x) = v))) } 1 => { let h1 = br!(p = "``", r#in = raw!(x)); let h2 = template!(del = "data-x", buffer = &x[..], "\u{1f468}\u{200d}\u{1f469}", "q'<" = iter!("", ['q: { break 'q idm!(x) }, &x[..]])); let h3 = frag!(if true { "say \"hi\"" } else { "say \"hi\"" }, (|| x)()); let h4 = classes!(loop { break (x) }, frag! {}, (),); let h5 = meta!{{ x } = h4}; let h6 = base!(); let h7 = frag!{h3, h5, frag_match!(if !!k { x } else { x }), h6}; let h8 = caption!(h7, idf(x) = v); let h9 = nav!(h1, idm!(x), if k && k { Some(h2) } else { None }, h8); end(b, h9) } 2 => { let h1 = br!(p = "``", r#in = raw!(x)); let h2 = template!(del = "data-x", buffer = &x[..], "\u{1f468}\u{200d}\u{1f469}", "q'<" = iter!("", ['q: { break 'q idm!(x) }, &x[..]])); let h3 = base!(); let h4 = caption!(frag!{frag!(if true { "say \"hi\"" } else { "say \"hi\"" }, (|| x)()), meta!{{ x } = classes!(loop { break (x) }, frag! {}, (),)}, frag_match!(if !!k { x } else { x }), h3}, idf(x) = v); end(b, nav!(h1, idm!(x), if k && k { Some(h2) } else { None }, h4)) } _ => { let h1 = nav!(br!(p = "``", r#in = raw!(x)), idm!(x), if k && k { Some(template!(del = "data-x", buffer = &x[..], "\u{1f468}\u{200d}\u{1f469}", "q'<" = iter!("", ['q: { break 'q idm!(x) }, &x[..]]))) } else { None }, caption!(frag!{frag!(if true { "say \"hi\"" } else { "say \"hi\"" }, (|| x)()), meta!{{ x } = classes!(loop { break (x) }, frag! {}, (),)}, frag_match!(if !!k { x } else { x }), base!()}, idf(x) = v)); end(b, h1) } } }
    h_18_g040(b) { let v = u8_(); let k = bool_(); let l = bool_(); if k { lit("<textarea>\u{a0}</textarea>"); } lit(if k { "true" } else { "false" }); match choose(4) { 0 => { end(b, frag!(frag!(if !!k { Some(textarea!["\u{a0}"]) } else { None }, !!k,), frag!(classes!()))) } 1 => { let h1 = textarea!["\u{a0}"]; let h2 = frag!(if !!k { Some(h1) } else { None }, !!k,); let h3 = classes!(); let h4 = frag!(h3); let h5 = frag!(h2, h4); end(b, h5) } 2 => { let h1 = textarea!["\u{a0}"]; let h2 = frag!(if !!k { Some(h1) } else { None }, !!k,); end(b, frag!(h2, frag!(classes!()))) } _ => { let h1 = textarea!["\u{a0}"]; end(b, frag!(frag!(if !!k { Some(h1) } else { None }, !!k,), frag!(classes!()))) } } }
    h_18_g041(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<del "); esc(x); lit("=\""); esc(x); lit("\"><h1>{<img"); if k { lit(" "); esc(x); } lit(" "); esc(x); lit("=\""); esc(y); lit("\" onclick=\""); if v == 0 { esc(x); } else if v < 10 { lit("<hr bool=\" \">"); } else { lit("many"); } lit("\">|"); esc(y); esc(y); lit("}</h1><meta><area "); esc(x); lit("=\""); esc(x); lit("\" :bind=\""); esc(y); lit("\"></del>"); match choose(4) { 0 => { end(b, del!(cmp2!(meta!(), title = cmp1!(b = iter!([(core::convert::identity::<&str>(y)), y]), a = img!{[x][0] = bool!(S0.m(k)), Some(x) = classes!('q: { break 'q y }), onclick = frag_match!(match v { 0 => (move |q: &'static str| q)(x), 1..=9 => hr!(bool = classes!("", "",)), _ => "many" })})), area!({ x } = Some(core::convert::identity::<&str>(x)), ":bind" = 'q: { break 'q y }), S0.m(x) = x)) } 1 => { let h1 = meta!(); let h2 = classes!('q: { break 'q y }); let h3 = classes!("", "",); let h4 = hr!(bool = h3); let h5 = img!{[x][0] = bool!(S0.m(k)), Some(x) = h2, onclick = frag_match!(match v { 0 => (move |q: &'static str| q)(x), 1..=9 => h4, _ => "many" })}; let h6 = area!({ x } = Some(core::convert::identity::<&str>(x)), ":bind" = 'q: { break 'q y }); let h7 = del!(cmp2!(h1, title = cmp1!(b = iter!([(core::convert::identity::<&str>(y)), y]), a = h5)), h6, S0.m(x) = x); end(b, h7) } 2 => { let h1 = classes!("", "",); let h2 = area!({ x } = Some(core::convert::identity::<&str>(x)), ":bind" = 'q: { break 'q y }); end(b, del!(cmp2!(meta!(), title = cmp1!(b = iter!([(core::convert::identity::<&str>(y)), y]), a = img!{[x][0] = bool!(S0.m(k)), Some(x) = classes!('q: { break 'q y }), onclick = frag_match!(match v { 0 => (move |q: &'static str| q)(x), 1..=9 => hr!(bool = h1), _ => "many" })})), h2, S0.m(x) = x)) } _ => { let h1 = del!(cmp2!(meta!(), title = cmp1!(b = iter!([(core::convert::identity::<&str>(y)), y]), a = img!{[x][0] = bool!(S0.m(k)), Some(x) = classes!('q: { break 'q y }), onclick = frag_match!(match v { 0 => (move |q: &'static str| q)(x), 1..=9 => hr!(bool = classes!("", "",)), _ => "many" })})), area!({ x } = Some(core::convert::identity::<&str>(x)), ":bind" = 'q: { break 'q y }), S0.m(x) = x); end(b, h1) } } }
    h_18_g042(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<base p=\""); if k && k { esc(x); } lit("\""); if k { lit(" lang"); } if !k { lit(" div"); } lit(">"); match choose(4) { 0 => { end(b, classes![base!(p = if k && k { Some(x) } else { None }, lang = bool!((|| k)()), div = bool!(!k),)]) } 1 => { let h1 = base!(p = if k && k { Some(x) } else { None }, lang = bool!((|| k)()), div = bool!(!k),); let h2 = classes![h1]; end(b, h2) } 2 => { let h1 = base!(p = if k && k { Some(x) } else { None }, lang = bool!((|| k)()), div = bool!(!k),); end(b, classes![h1]) } _ => {  end(b, classes![base!(p = if k && k { Some(x) } else { None }, lang = bool!((|| k)()), div = bool!(!k),)]) } } }
    h_18_g043(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<body t1=\"\u{b}\">"); if !k { lit("<tr></tr>"); } lit("<picture><h4"); if !k { lit(" match"); } lit(" ref=\""); esc(x); lit("\"><wbr é=\""); lit_dec(v as u32); lit("\""); if k { lit(" style"); } lit("><link t1=\""); esc(x); lit(" "); esc(x); lit("\"></h4></picture></body>"); match choose(4) { 0 => { end(b, body![if k ^ true { Some(tr![]) } else { None }, t1 = "\u{b}", classes!(), picture![h4!{wbr!{"é" = { v }, style = bool!((k))}, link!(t1 = classes!({ let q = idf; q(x) }, x)), r#match = bool!(!k), r#ref = x}]]) } 1 => { let h1 = tr![]; let h2 = classes!(); let h3 = wbr!{"é" = { v }, style = bool!((k))}; let h4 = classes!({ let q = idf; q(x) }, x); let h5 = link!(t1 = h4); let h6 = h4!{h3, h5, r#match = bool!(!k), r#ref = x}; let h7 = picture![h6]; let h8 = body![if k ^ true { Some(h1) } else { None }, t1 = "\u{b}", h2, h7]; end(b, h8) } 2 => { let h1 = tr![]; let h2 = classes!(); let h3 = classes!({ let q = idf; q(x) }, x); let h4 = h4!{wbr!{"é" = { v }, style = bool!((k))}, link!(t1 = h3), r#match = bool!(!k), r#ref = x}; let h5 = picture![h4]; end(b, body![if k ^ true { Some(h1) } else { None }, t1 = "\u{b}", h2, h5]) } _ => {  end(b, body![if k ^ true { Some(tr![]) } else { None }, t1 = "\u{b}", classes!(), picture![h4!{wbr!{"é" = { v }, style = bool!((k))}, link!(t1 = classes!({ let q = idf; q(x) }, x)), r#match = bool!(!k), r#ref = x}]]) } } }
    h_18_g044(b) { let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<p><footer><embed><wbr>"); esc(y); lit("</footer></p>"); if k { lit("<div"); if k { lit(" in"); } if k { lit(" "); esc(y); } lit(" type=\"0123456789abcdef&lt;\"></div>"); } match choose(4) { 0 => { end(b, frag!(p!(footer!{embed!(), wbr!{}, y as &str}), if !!k { Some(div!(r#in = bool!(S0.m(k)), (y, 1).0 = bool!(k), r#type = const0!("0123456789abcdef<"))) } else { None })) } 1 => { let h1 = embed!(); let h2 = wbr!{}; let h3 = footer!{h1, h2, y as &str}; let h4 = p!(h3); let h5 = div!(r#in = bool!(S0.m(k)), (y, 1).0 = bool!(k), r#type = const0!("0123456789abcdef<")); let h6 = frag!(h4, if !!k { Some(h5) } else { None }); end(b, h6) } 2 => { let h1 = embed!(); let h2 = footer!{h1, wbr!{}, y as &str}; let h3 = frag!(p!(h2), if !!k { Some(div!(r#in = bool!(S0.m(k)), (y, 1).0 = bool!(k), r#type = const0!("0123456789abcdef<"))) } else { None }); end(b, h3) } _ => { let h1 = frag!(p!(footer!{embed!(), wbr!{}, y as &str}), if !!k { Some(div!(r#in = bool!(S0.m(k)), (y, 1).0 = bool!(k), r#type = const0!("0123456789abcdef<"))) } else { None }); end(b, h1) } } }
    h_18_g045(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<map"); if v == 7 || k { lit(" q&#39;&lt;"); } lit("><tfoot><a "); esc(y); lit("=\""); lit(x); lit("3\">&lt;!--</a><section>"); lit(x); lit("<input value=\""); lit(if k { "true" } else { "false" }); lit(" \"></section></tfoot><var data_x=\";\"><legend><hr id=\""); if k { esc(y); } else { esc(x); } lit(" "); esc(x); lit(" "); esc(y); lit(" "); lit(if k { "true" } else { "false" }); lit("\" data-x=\"\" frag=\"long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt; "); esc(x); lit("\"></legend></var><colgroup>"); if k { lit("\u{7f}"); } lit("</colgroup></map>"); match choose(4) { 0 => { end(b, map!(tfoot!(a!(idm!(y) = frag!{laby::raw!(x), { "="; }, 1 + 2}, const0!("<!--")), cmp0!(raw!(x), input!(value = classes![(k), ()]))), var!(legend!(hr![id = classes!(match k { true => y, false => x }, core::convert::identity::<&str>(x), *&y, S0.m(k),), "data-x" = classes!(), frag = classes![("long text that goes on and on & on, past thirty two bytes <i>"), idm!(x),]]), data_x = ";"), "q'<" = bool!(v == 7 || k), colgroup![frag_match!(if (|| k)() { const0!("\u{7f}") })])) } 1 => { let h1 = frag!{laby::raw!(x), { "="; }, 1 + 2}; let h2 = a!(idm!(y) = h1, const0!("<!--")); let h3 = classes![(k), ()]; let h4 = input!(value = h3); let h5 = tfoot!(h2, cmp0!(raw!(x), h4)); let h6 = classes!(match k { true => y, false => x }, core::convert::identity::<&str>(x), *&y, S0.m(k),); let h7 = classes!(); let h8 = classes![("long text that goes on and on & on, past thirty two bytes <i>"), idm!(x),]; let h9 = hr![id = h6, "data-x" = h7, frag = h8]; let h10 = legend!(h9); let h11 = var!(h10, data_x = ";"); let h12 = colgroup![frag_match!(if (|| k)() { const0!("\u{7f}") })]; let h13 = map!(h5, h11, "q'<" = bool!(v == 7 || k), h12); end(b, h13) } 2 => { let h1 = a!(idm!(y) = frag!{laby::raw!(x), { "="; }, 1 + 2}, const0!("<!--")); let h2 = classes![(k), ()]; let h3 = input!(value = h2); let h4 = classes!(match k { true => y, false => x }, core::convert::identity::<&str>(x), *&y, S0.m(k),); let h5 = classes!(); let h6 = classes![("long text that goes on and on & on, past thirty two bytes <i>"), idm!(x),]; let h7 = hr![id = h4, "data-x" = h5, frag = h6]; let h8 = colgroup![frag_match!(if (|| k)() { const0!("\u{7f}") })]; end(b, map!(tfoot!(h1, cmp0!(raw!(x), h3)), var!(legend!(h7), data_x = ";"), "q'<" = bool!(v == 7 || k), h8)) } _ => { let h1 = classes![("long text that goes on and on & on, past thirty two bytes <i>"), idm!(x),]; end(b, map!(tfoot!(a!(idm!(y) = frag!{laby::raw!(x), { "="; }, 1 + 2}, const0!("<!--")), cmp0!(raw!(x), input!(value = classes![(k), ()]))), var!(legend!(hr![id = classes!(match k { true => y, false => x }, core::convert::identity::<&str>(x), *&y, S0.m(k),), "data-x" = classes!(), frag = h1]), data_x = ";"), "q'<" = bool!(v == 7 || k), colgroup![frag_match!(if (|| k)() { const0!("\u{7f}") })])) } } }
    h_18_g046(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<source "); esc(y); lit("=\"a\r\nb\" static=\""); esc(y); esc(y); lit("\" q=\""); esc(y); lit("\">{<ol frag=\"&#39;\"><hr "); esc(x); lit("=\"nl\n\"><param loop=\"3\" for=\""); esc(x); lit("\"></ol>|dflt}"); lit_dec(v as u32); match choose(4) { 0 => { end(b, frag!{classes!(), source!((y, 1).0 = "a\r\nb", r#static = iter!("", [&y[..], y]), nm("q") = Some(y)), cmp1!(a = ol!(frag = concat!("'", ""), hr!(idf(x) = const0!("nl\n")), param!(r#loop = 1 + 2, r#for = Some(x)))), v}) } 1 => { let h1 = source!((y, 1).0 = "a\r\nb", r#static = iter!("", [&y[..], y]), nm("q") = Some(y)); let h2 = hr!(idf(x) = const0!("nl\n")); let h3 = param!(r#loop = 1 + 2, r#for = Some(x)); let h4 = ol!(frag = concat!("'", ""), h2, h3); let h5 = classes!{}; let h6 = br![r#async = (k && k), idm!(y) = if true { "\u{2028}" } else { "\u{2028}" }, bool = h5]; let h7 = frag!(h6, ""); let h8 = frag!{classes!(), h1, cmp1!(a = h4), v}; end(b, h8) } 2 => { let h1 = source!((y, 1).0 = "a\r\nb", r#static = iter!("", [&y[..], y]), nm("q") = Some(y)); let h2 = ol!(frag = concat!("'", ""), hr!(idf(x) = const0!("nl\n")), param!(r#loop = 1 + 2, r#for = Some(x))); let h3 = frag!(br![r#async = (k && k), idm!(y) = if true { "\u{2028}" } else { "\u{2028}" }, bool = classes!{}], ""); end(b, frag!{classes!(), h1, cmp1!(a = h2), v}) } _ => { let h1 = param!(r#loop = 1 + 2, r#for = Some(x)); let h2 = classes!{}; end(b, frag!{classes!(), source!((y, 1).0 = "a\r\nb", r#static = iter!("", [&y[..], y]), nm("q") = Some(y)), cmp1!(a = ol!(frag = concat!("'", ""), hr!(idf(x) = const0!("nl\n")), h1)), v}) } } }
    h_18_g047(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<menuitem é=\""); if k { esc(x); } else { esc(x); } lit("\" frag=\""); lit(if !k { "true" } else { "false" }); esc(y); lit("\">"); if v == 0 { lit("<i>"); esc(y); esc(x); lit("</i>"); } else if v < 10 { esc(y); } else { lit("many"); } lit("</menuitem>"); match choose(4) { 0 => { end(b, menuitem!(frag_match!(match v { 0 => i!(frag!{*&y, ("other", x).1}), 1..=9 => ("other", (y)).1, _ => "many" }), "é" = classes![core::convert::identity::<&str>(match k { true => x, false => x })], frag = frag!((k ^ true), {}, y as &str))) } 1 => { let h1 = classes![core::convert::identity::<&str>(match k { true => x, false => x })]; let h2 = frag!((k ^ true), {}, y as &str); let h3 = frag!{*&y, ("other", x).1}; let h4 = i!(h3); let h5 = menuitem!(frag_match!(match v { 0 => h4, 1..=9 => ("other", (y)).1, _ => "many" }), "é" = h1, frag = h2); end(b, h5) } 2 => { let h1 = frag!{*&y, ("other", x).1}; let h2 = i!(h1); let h3 = menuitem!(frag_match!(match v { 0 => h2, 1..=9 => ("other", (y)).1, _ => "many" }), "é" = classes![core::convert::identity::<&str>(match k { true => x, false => x })], frag = frag!((k ^ true), {}, y as &str)); end(b, h3) } _ => { let h1 = frag!{*&y, ("other", x).1}; let h2 = menuitem!(frag_match!(match v { 0 => i!(h1), 1..=9 => ("other", (y)).1, _ => "many" }), "é" = classes![core::convert::identity::<&str>(match k { true => x, false => x })], frag = frag!((k ^ true), {}, y as &str)); end(b, h2) } } }
    h_18_g048(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<map a1 x=\"1000\" lang=\""); esc(y); lit("\">"); if k { esc(y); } else { esc(y); } lit("<iframe>"); if k && k { lit("<hr>"); } lit("<q>"); esc(y); lit("<source @click=\""); lit(x); lit("\" x:y=\""); lit(if k { "true" } else { "false" }); lit("\"></q>"); esc(x); lit("<link é=\""); esc(x); lit("\" "); esc(y); lit("=\""); lit(x); lit("\" a&quot;b=\" \u{1b}\"></iframe></map>"); match choose(4) { 0 => { end(b, map![a1 = bool!((true)), if (|| k)() { y } else { y }, x = 1_000, iframe!{frag_match!(if k && k { hr!{} }), q!(y, source!("@click" = laby::raw!(x), "x:y" = S0.m(k))), frag!(Some(({ let q = x as &str; q })), link!("é" = *&x, (y, 1).0 = raw!(x), "a\"b" = classes!(frag!(), "\u{1b}")))}, lang = P0 { a: "other", b: W0(y) }.b]) } 1 => { let h1 = hr!{}; let h2 = source!("@click" = laby::raw!(x), "x:y" = S0.m(k)); let h3 = q!(y, h2); let h4 = classes!(frag!(), "\u{1b}"); let h5 = link!("é" = *&x, (y, 1).0 = raw!(x), "a\"b" = h4); let h6 = frag!(Some(({ let q = x as &str; q })), h5); let h7 = iframe!{frag_match!(if k && k { h1 }), h3, h6}; let h8 = map![a1 = bool!((true)), if (|| k)() { y } else { y }, x = 1_000, h7, lang = P0 { a: "other", b: W0(y) }.b]; end(b, h8) } 2 => { let h1 = classes!(frag!(), "\u{1b}"); let h2 = frag!(Some(({ let q = x as &str; q })), link!("é" = *&x, (y, 1).0 = raw!(x), "a\"b" = h1)); let h3 = iframe!{frag_match!(if k && k { hr!{} }), q!(y, source!("@click" = laby::raw!(x), "x:y" = S0.m(k))), h2}; let h4 = map![a1 = bool!((true)), if (|| k)() { y } else { y }, x = 1_000, h3, lang = P0 { a: "other", b: W0(y) }.b]; end(b, h4) } _ => { let h1 = hr!{}; let h2 = iframe!{frag_match!(if k && k { h1 }), q!(y, source!("@click" = laby::raw!(x), "x:y" = S0.m(k))), frag!(Some(({ let q = x as &str; q })), link!("é" = *&x, (y, 1).0 = raw!(x), "a\"b" = classes!(frag!(), "\u{1b}")))}; end(b, map![a1 = bool!((true)), if (|| k)() { y } else { y }, x = 1_000, h2, lang = P0 { a: "other", b: W0(y) }.b]) } } }
    h_18_g049(b) { let x = t(1); let k = bool_(); lit("<title p>"); if k && k { lit("<img "); esc(x); lit("=\"é\">"); } else if k {  } else { lit("0"); } lit(if k && k { "true" } else { "false" }); lit("</title>"); esc(x); match choose(4) { 0 => { end(b, frag!{(), title![frag_match!(if k && k { img!{{ let q = x; q } = classes!(match 0 { _ => "é" })} } else if { k } { classes!{} } else { 0 }), p = bool!((true)), (k && k),], [x, "other"][0]}) } 1 => { let h1 = classes!(match 0 { _ => "é" }); let h2 = img!{{ let q = x; q } = h1}; let h3 = classes!{}; let h4 = title![frag_match!(if k && k { h2 } else if { k } { h3 } else { 0 }), p = bool!((true)), (k && k),]; let h5 = frag!{(), h4, [x, "other"][0]}; end(b, h5) } 2 => {  end(b, frag!{(), title![frag_match!(if k && k { img!{{ let q = x; q } = classes!(match 0 { _ => "é" })} } else if { k } { classes!{} } else { 0 }), p = bool!((true)), (k && k),], [x, "other"][0]}) } _ => { let h1 = classes!(match 0 { _ => "é" }); let h2 = classes!{}; let h3 = frag!{(), title![frag_match!(if k && k { img!{{ let q = x; q } = h1} } else if { k } { h2 } else { 0 }), p = bool!((true)), (k && k),], [x, "other"][0]}; end(b, h3) } } }
    h_18_g050(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<canvas "); esc(x); lit("=\""); esc(x); lit("\">"); esc(x); lit("<bdi t1=\"raw\\&lt;\"></bdi>"); if v == 0 { lit(if k { "true" } else { "false" }); } else if v < 10 { lit("raw\\&lt;"); } else { lit("many"); } if k { lit("<div></div>"); } lit("</canvas>"); match choose(3) { 0 => { end(b, canvas!(frag!(W0({ x })), W0(bdi!{{ (); }, t1 = if true { r"raw\<" } else { r"raw\<" }}), { let q = x; q } = x, frag_match!(match v { 0 => idb(k), 1..=9 => idf(r"raw\<"), _ => "many" }), if idb(k) { Some(div!()) } else { None })) } 1 => { let h1 = frag!(W0({ x })); let h2 = bdi!{{ (); }, t1 = if true { r"raw\<" } else { r"raw\<" }}; let h3 = div!(); let h4 = canvas!(h1, W0({h2}), { let q = x; q } = x, frag_match!(match v { 0 => idb(k), 1..=9 => idf(r"raw\<"), _ => "many" }), if idb(k) { Some(h3) } else { None }); end(b, h4) } _ => { let h1 = frag!(W0({ x })); let h2 = div!(); end(b, canvas!(h1, W0(bdi!{{ (); }, t1 = if true { r"raw\<" } else { r"raw\<" }}), { let q = x; q } = x, frag_match!(match v { 0 => idb(k), 1..=9 => idf(r"raw\<"), _ => "many" }), if idb(k) { Some(h2) } else { None })) } } }
    h_18_g051(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<optgroup del=\""); if !k { esc(x); } lit("\" @click=\"abc "); esc(x); lit(" "); esc(y); lit("\" static=\""); esc(x); lit("<"); esc(x); lit("\"></optgroup>"); if k { esc(y); } lit("<hr a&quot;b=\""); if !k { esc(x); } lit(" "); esc(x); lit(" "); esc(x); lit(" "); lit(if k || k { "true" } else { "false" }); lit("\"><canvas>"); esc(x); lit("&#39;</canvas>"); match choose(4) { 0 => { end(b, frag!(frag!{optgroup!(del = if !k { Some(x) } else { None }, "@click" = classes![match 0 { _ => "abc" }, [x, "other"][0], 'q: { break 'q y }], r#static = iter!("<", [idf(x), x as &str])), if k { Some(y) } else { None }, hr!["a\"b" = classes!(if !k { Some(x) } else { None }, P0 { a: "other", b: x }.b, if let Some(q) = Some(x) { q } else { "no" }, (k || k))], { let q = canvas!(idf(x), const0!("'")); q },}, frag!(), frag!(frag!(frag!())))) } 1 => { let h1 = classes![match 0 { _ => "abc" }, [x, "other"][0], 'q: { break 'q y }]; let h2 = optgroup!(del = if !k { Some(x) } else { None }, "@click" = h1, r#static = iter!("<", [idf(x), x as &str])); let h3 = classes!(if !k { Some(x) } else { None }, P0 { a: "other", b: x }.b, if let Some(q) = Some(x) { q } else { "no" }, (k || k)); let h4 = hr!["a\"b" = h3]; let h5 = canvas!(idf(x), const0!("'")); let h6 = frag!{h2, if k { Some(y) } else { None }, h4, { let q = {h5}; q },}; let h7 = frag!(frag!(frag!())); let h8 = frag!(h6, frag!(), h7); end(b, h8) } 2 => { let h1 = optgroup!(del = if !k { Some(x) } else { None }, "@click" = classes![match 0 { _ => "abc" }, [x, "other"][0], 'q: { break 'q y }], r#static = iter!("<", [idf(x), x as &str])); let h2 = hr!["a\"b" = classes!(if !k { Some(x) } else { None }, P0 { a: "other", b: x }.b, if let Some(q) = Some(x) { q } else { "no" }, (k || k))]; let h3 = frag!(frag!(frag!())); let h4 = frag!(frag!{h1, if k { Some(y) } else { None }, h2, { let q = canvas!(idf(x), const0!("'")); q },}, frag!(), h3); end(b, h4) } _ => { let h1 = optgroup!(del = if !k { Some(x) } else { None }, "@click" = classes![match 0 { _ => "abc" }, [x, "other"][0], 'q: { break 'q y }], r#static = iter!("<", [idf(x), x as &str])); let h2 = frag!(frag!(frag!())); end(b, frag!(frag!{h1, if k { Some(y) } else { None }, hr!["a\"b" = classes!(if !k { Some(x) } else { None }, P0 { a: "other", b: x }.b, if let Some(q) = Some(x) { q } else { "no" }, (k || k))], { let q = canvas!(idf(x), const0!("'")); q },}, frag!(), h2)) } } }
    h_18_g052(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("false \r\n <h2 "); esc(y); lit("=\"\" é=\"  two  r#&quot;\"><tbody title=\"255\""); if k { lit(" fn"); } lit("></tbody></h2>  "); if v > 99 { esc(x); } lit(if v > 99 { "true" } else { "false" }); esc(y); match choose(4) { 0 => { end(b, classes!{false, loop { break "\r\n" }, h2![{ y } = classes!(), "é" = frag!(frag! {}, { "  two  " }, ({ ("r#\"") }), { (); },), tbody![title = !0u8, r#fn = bool!((k))]], frag!{{ let _ = 1; }, classes!("", frag!(if v > 99 { Some(x) } else { None }, (v > 99), y))},}) } 1 => { let h1 = classes!(); let h2 = frag!(frag! {}, { "  two  " }, ({ ("r#\"") }), { (); },); let h3 = tbody![title = !0u8, r#fn = bool!((k))]; let h4 = h2![{ y } = h1, "é" = h2, h3]; let h5 = frag!(if v > 99 { Some(x) } else { None }, (v > 99), y); let h6 = classes!("", h5); let h7 = frag!{{ let _ = 1; }, h6}; let h8 = classes!{false, loop { break "\r\n" }, h4, h7,}; end(b, h8) } 2 => { let h1 = frag!(frag! {}, { "  two  " }, ({ ("r#\"") }), { (); },); let h2 = frag!(if v > 99 { Some(x) } else { None }, (v > 99), y); let h3 = frag!{{ let _ = 1; }, classes!("", h2)}; let h4 = classes!{false, loop { break "\r\n" }, h2![{ y } = classes!(), "é" = h1, tbody![title = !0u8, r#fn = bool!((k))]], h3,}; end(b, h4) } _ => { let h1 = frag!(frag! {}, { "  two  " }, ({ ("r#\"") }), { (); },); let h2 = frag!(if v > 99 { Some(x) } else { None }, (v > 99), y); let h3 = classes!("", h2); end(b, classes!{false, loop { break "\r\n" }, h2![{ y } = classes!(), "é" = h1, tbody![title = !0u8, r#fn = bool!((k))]], frag!{{ let _ = 1; }, h3},}) } } }
    h_18_g053(b) { let x = t(1); let y = t(1); lit("<rt><hr as=\""); lit(y); lit("  "); esc(y); lit(" &lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;\" "); esc(x); lit("=\""); esc(x); lit("\"></rt>"); match choose(4) { 0 => { end(b, classes![frag![frag![], rt![hr!{r#as = classes!(laby::raw!(y), frag!(frag!()), ("other", y).1, "<<<<<<<<<<<<<<<<"), { { x } } = x as &str},],]]) } 1 => { let h1 = frag![]; let h2 = classes!(laby::raw!(y), frag!(frag!()), ("other", y).1, "<<<<<<<<<<<<<<<<"); let h3 = hr!{r#as = h2, { { x } } = x as &str}; let h4 = rt![h3,]; let h5 = frag![h1, h4,]; let h6 = classes![h5]; end(b, h6) } 2 => { let h1 = frag![]; let h2 = hr!{r#as = classes!(laby::raw!(y), frag!(frag!()), ("other", y).1, "<<<<<<<<<<<<<<<<"), { { x } } = x as &str}; let h3 = rt![h2,]; let h4 = frag![h1, h3,]; let h5 = classes![h4]; end(b, h5) } _ => { let h1 = classes!(laby::raw!(y), frag!(frag!()), ("other", y).1, "<<<<<<<<<<<<<<<<"); let h2 = hr!{r#as = h1, { { x } } = x as &str}; end(b, classes![frag![frag![], rt![h2,],]]) } } }
    h_18_g054(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<video><menuitem>"); if k { esc(y); } lit("<source "); esc(x); lit("=\""); esc(y); lit("\" id=\""); if k { esc(x); } else { esc(y); } lit("\" a&quot;b=\""); esc(x); lit("\">c<br"); if k || k { lit(" "); esc(y); } lit(" "); esc(x); lit("=\"%\""); if !k { lit(" value"); } lit("></menuitem></video>7"); match choose(4) { 0 => { end(b, frag!(video![menuitem!(if k { Some(y) } else { None }, source!(idf(x) = loop { break (core::convert::identity::<&str>(y)) }, id = (match k { true => x, false => y }), "a\"b" = x), 'c', br![[y][0] = bool!(k || k), { let q = x; q } = const0!("%"), value = bool!(!k)])], if true { 7 } else { 7 })) } 1 => { let h1 = source!(idf(x) = loop { break (core::convert::identity::<&str>(y)) }, id = (match k { true => x, false => y }), "a\"b" = x); let h2 = br![[y][0] = bool!(k || k), { let q = x; q } = const0!("%"), value = bool!(!k)]; let h3 = menuitem!(if k { Some(y) } else { None }, h1, 'c', h2); let h4 = video![h3]; let h5 = frag!(h4, if true { 7 } else { 7 }); end(b, h5) } 2 => { let h1 = source!(idf(x) = loop { break (core::convert::identity::<&str>(y)) }, id = (match k { true => x, false => y }), "a\"b" = x); let h2 = menuitem!(if k { Some(y) } else { None }, h1, 'c', br![[y][0] = bool!(k || k), { let q = x; q } = const0!("%"), value = bool!(!k)]); end(b, frag!(video![h2], if true { 7 } else { 7 })) } _ => {  end(b, frag!(video![menuitem!(if k { Some(y) } else { None }, source!(idf(x) = loop { break (core::convert::identity::<&str>(y)) }, id = (match k { true => x, false => y }), "a\"b" = x), 'c', br![[y][0] = bool!(k || k), { let q = x; q } = const0!("%"), value = bool!(!k)])], if true { 7 } else { 7 })) } } }
    h_18_g055(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<rt><data"); if k { lit(" "); esc(y); } lit(">"); esc(y); esc(x); esc(x); lit("<area x:y=\"it&#39;s\"></data><area t1=\""); lit_dec(v as u32); lit("\">"); esc(x); lit("</rt>"); match choose(4) { 0 => { end(b, rt![idf(data!{{ { y } } = bool!(idb(k)), frag!{y, core::convert::identity::<&str>(x), &x[..]}, area!["x:y" = classes!["it's",]]}), area!(t1 = v), ({ let q = x; q })]) } 1 => { let h1 = frag!{y, core::convert::identity::<&str>(x), &x[..]}; let h2 = classes!["it's",]; let h3 = area!["x:y" = h2]; let h4 = data!{{ { y } } = bool!(idb(k)), h1, h3}; let h5 = area!(t1 = v); let h6 = rt![idf({h4}), h5, ({ let q = x; q })]; end(b, h6) } 2 => { let h1 = frag!{y, core::convert::identity::<&str>(x), &x[..]}; let h2 = data!{{ { y } } = bool!(idb(k)), h1, area!["x:y" = classes!["it's",]]}; end(b, rt![idf({h2}), area!(t1 = v), ({ let q = x; q })]) } _ => { let h1 = area!["x:y" = classes!["it's",]]; end(b, rt![idf(data!{{ { y } } = bool!(idb(k)), frag!{y, core::convert::identity::<&str>(x), &x[..]}, h1}), area!(t1 = v), ({ let q = x; q })]) } } }
    h_18_g056(b) { let k = bool_(); let l = bool_(); lit("<bdi>"); if !k { lit("<ol><img"); if k { lit(" loop"); } lit(">&gt;</ol>"); } lit("</bdi>"); match choose(4) { 0 => { end(b, bdi!(if !k { Some(ol![img!{r#loop = bool!(k)}, ">"]) } else { None })) } 1 => { let h1 = img!{r#loop = bool!(k)}; let h2 = ol![h1, ">"]; let h3 = bdi!(if !k { Some(h2) } else { None }); end(b, h3) } 2 => { let h1 = ol![img!{r#loop = bool!(k)}, ">"]; let h2 = bdi!(if !k { Some(h1) } else { None }); end(b, h2) } _ => { let h1 = img!{r#loop = bool!(k)}; end(b, bdi!(if !k { Some(ol![h1, ">"]) } else { None })) } } }
    h_18_g057(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<section>"); lit_dec(v as u32); lit("</section>"); if !k { lit("<source lang=\""); esc(y); lit(" "); esc(y); lit("\" a1=\""); esc(x); lit("  "); if !k { esc(x); } lit("\""); if k { lit(" lang"); } lit(">"); } else if k && l { lit("<hr in=\""); lit_dec(v as u32); lit("\" :bind=\""); if k && k { lit("a&lt;b"); } lit("\""); if k { lit(" type"); } lit(">"); } else { lit("0"); } match choose(4) { 0 => { end(b, frag!(cmp0!(classes!(), classes!(v as u32)), frag_match!(if k ^ true { source!(lang = classes!(W0('q: { break 'q y }), (|| y)()), a1 = classes!{*&x, { "007"; }, if k ^ true { Some(x) } else { None }}, lang = bool!((|| k)())) } else if k && l { hr!(r#in = S0.m(v), ":bind" = frag_match!(if k && k { "a<b" }), r#type = bool!({ k })) } else { 0 }))) } 1 => { let h1 = classes!(); let h2 = classes!(v as u32); let h3 = classes!(W0('q: { break 'q y }), (|| y)()); let h4 = classes!{*&x, { "007"; }, if k ^ true { Some(x) } else { None }}; let h5 = source!(lang = h3, a1 = h4, lang = bool!((|| k)())); let h6 = hr!(r#in = S0.m(v), ":bind" = frag_match!(if k && k { "a<b" }), r#type = bool!({ k })); let h7 = frag!(cmp0!(h1, h2), frag_match!(if k ^ true { h5 } else if k && l { h6 } else { 0 })); end(b, h7) } 2 => { let h1 = classes!(); let h2 = classes!(W0('q: { break 'q y }), (|| y)()); let h3 = classes!{*&x, { "007"; }, if k ^ true { Some(x) } else { None }}; end(b, frag!(cmp0!(h1, classes!(v as u32)), frag_match!(if k ^ true { source!(lang = h2, a1 = h3, lang = bool!((|| k)())) } else if k && l { hr!(r#in = S0.m(v), ":bind" = frag_match!(if k && k { "a<b" }), r#type = bool!({ k })) } else { 0 }))) } _ => { let h1 = classes!{*&x, { "007"; }, if k ^ true { Some(x) } else { None }}; let h2 = source!(lang = classes!(W0('q: { break 'q y }), (|| y)()), a1 = h1, lang = bool!((|| k)())); let h3 = hr!(r#in = S0.m(v), ":bind" = frag_match!(if k && k { "a<b" }), r#type = bool!({ k })); let h4 = frag!(cmp0!(classes!(), classes!(v as u32)), frag_match!(if k ^ true { h2 } else if k && l { h3 } else { 0 })); end(b, h4) } } }
    h_18_g058(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("\u{200b}<h1>"); if k || k { lit("<th"); if k { lit(" loop"); } lit(">"); lit_dec(v as u32); lit(x); lit("</th>"); } lit("</h1>"); match choose(4) { 0 => { end(b, frag!("\u{200b}", cmp2!(frag!{}, title = if k || k { Some(th!(r#loop = bool!(S0.m(k)), { v }, raw!({ x }))) } else { None }))) } 1 => { let h1 = frag!{}; let h2 = th!(r#loop = bool!(S0.m(k)), { v }, raw!({ x })); let h3 = frag!("\u{200b}", cmp2!(h1, title = if k || k { Some(h2) } else { None })); end(b, h3) } 2 => { let h1 = th!(r#loop = bool!(S0.m(k)), { v }, raw!({ x })); let h2 = frag!("\u{200b}", cmp2!(frag!{}, title = if k || k { Some(h1) } else { None })); end(b, h2) } _ => {  end(b, frag!("\u{200b}", cmp2!(frag!{}, title = if k || k { Some(th!(r#loop = bool!(S0.m(k)), { v }, raw!({ x }))) } else { None }))) } } }
    h_18_g059(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<iframe><rtc>"); if k { esc(y); } lit("</rtc><strong><link @click=\""); esc(x); lit(" nl\n "); if k { esc(x); } else { esc(y); } lit(" -\"><col name=\"é\"></strong></iframe><ul true_=\""); esc(x); lit("\"></ul>"); match choose(4) { 0 => { end(b, frag!(iframe!(rtc!(if k { Some(y) } else { None }), strong!{link!("@click" = classes!(x, ("nl\n"), frag_match!(if (k) { loop { break (x) } } else { y }), "-")), col!(name = idf("é"))}), ul![r#true_ = { x },])) } 1 => { let h1 = rtc!(if k { Some(y) } else { None }); let h2 = classes!(x, ("nl\n"), frag_match!(if (k) { loop { break (x) } } else { y }), "-"); let h3 = link!("@click" = h2); let h4 = col!(name = idf("é")); let h5 = strong!{h3, h4}; let h6 = iframe!(h1, h5); let h7 = ul![r#true_ = { x },]; let h8 = frag!(h6, h7); end(b, h8) } 2 => { let h1 = classes!(x, ("nl\n"), frag_match!(if (k) { loop { break (x) } } else { y }), "-"); let h2 = strong!{link!("@click" = h1), col!(name = idf("é"))}; let h3 = iframe!(rtc!(if k { Some(y) } else { None }), h2); let h4 = frag!(h3, ul![r#true_ = { x },]); end(b, h4) } _ => { let h1 = iframe!(rtc!(if k { Some(y) } else { None }), strong!{link!("@click" = classes!(x, ("nl\n"), frag_match!(if (k) { loop { break (x) } } else { y }), "-")), col!(name = idf("é"))}); let h2 = frag!(h1, ul![r#true_ = { x },]); end(b, h2) } } }
    h_18_g060(b) { let x = t(1); let y = t(1); lit("<title><base><sub>"); esc(y); lit("<hr :bind=\" "); esc(y); lit("\"></sub><code></code><html>"); esc(y); lit(", "); esc(x); lit("</html></title>"); match choose(4) { 0 => { end(b, title!(frag![base![], sub![{ let q = idf; q(y) }, hr!(":bind" = classes!({ "<<<<<<<<<<<<<<<<"; }, ("other", y).1))]], (code!{}), (html![iter!(", ", [y, x])]))) } 1 => { let h1 = base![]; let h2 = classes!({ "<<<<<<<<<<<<<<<<"; }, ("other", y).1); let h3 = hr!(":bind" = h2); let h4 = sub![{ let q = idf; q(y) }, h3]; let h5 = frag![h1, h4]; let h6 = code!{}; let h7 = html![iter!(", ", [y, x])]; let h8 = title!(h5, ({h6}), ({h7})); end(b, h8) } 2 => { let h1 = base![]; let h2 = classes!({ "<<<<<<<<<<<<<<<<"; }, ("other", y).1); let h3 = sub![{ let q = idf; q(y) }, hr!(":bind" = h2)]; let h4 = code!{}; let h5 = html![iter!(", ", [y, x])]; let h6 = title!(frag![h1, h3], ({h4}), ({h5})); end(b, h6) } _ => { let h1 = base![]; let h2 = hr!(":bind" = classes!({ "<<<<<<<<<<<<<<<<"; }, ("other", y).1)); let h3 = sub![{ let q = idf; q(y) }, h2]; let h4 = frag![h1, h3]; let h5 = code!{}; let h6 = html![iter!(", ", [y, x])]; end(b, title!(h4, ({h5}), ({h6}))) } } }
    h_18_g061(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<header ref=\"\" hx-get=\""); esc(x); lit("\" v-on:a.b=\"tab\t\"><rb>"); lit(if k { "true" } else { "false" }); esc(y); lit("<source "); esc(x); lit("=\""); if k { esc(y); } lit("\" bool=\""); lit(if !k { "true" } else { "false" }); lit("\" t1=\""); if k { esc(x); } lit("\"></rb>"); if v < 10 { esc(y); } lit("</header>"); match choose(4) { 0 => { end(b, classes!(header!(r#ref = classes!(), "hx-get" = x, "v-on:a.b" = "tab\t", rb!{classes![{ (); }], idb(k), ("other", y).1, source![[x][0] = if (|| k)() { Some(y) } else { None }, bool = !k, t1 = if S0.m(k) { Some(x) } else { None }]}, if matches!(v, 0..=9) { Some(y) } else { None }),)) } 1 => { let h1 = classes!(); let h2 = classes![{ (); }]; let h3 = source![[x][0] = if (|| k)() { Some(y) } else { None }, bool = !k, t1 = if S0.m(k) { Some(x) } else { None }]; let h4 = rb!{h2, idb(k), ("other", y).1, h3}; let h5 = header!(r#ref = h1, "hx-get" = x, "v-on:a.b" = "tab\t", h4, if matches!(v, 0..=9) { Some(y) } else { None }); let h6 = classes!(h5,); end(b, h6) } 2 => { let h1 = classes!(); let h2 = classes![{ (); }]; let h3 = header!(r#ref = h1, "hx-get" = x, "v-on:a.b" = "tab\t", rb!{h2, idb(k), ("other", y).1, source![[x][0] = if (|| k)() { Some(y) } else { None }, bool = !k, t1 = if S0.m(k) { Some(x) } else { None }]}, if matches!(v, 0..=9) { Some(y) } else { None }); end(b, classes!(h3,)) } _ => { let h1 = classes!(); let h2 = classes!(header!(r#ref = h1, "hx-get" = x, "v-on:a.b" = "tab\t", rb!{classes![{ (); }], idb(k), ("other", y).1, source![[x][0] = if (|| k)() { Some(y) } else { None }, bool = !k, t1 = if S0.m(k) { Some(x) } else { None }]}, if matches!(v, 0..=9) { Some(y) } else { None }),); end(b, h2) } } }
    h_18_g062(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<mark Value=\"007\""); if !k { lit(" a&quot;b"); } lit("><ol"); if k && k { lit(" "); esc(x); } lit(">"); esc(x); lit(" "); if k { esc(y); } lit("  <h1>"); if v == 0 { if k { esc(y); } else { esc(x); } } else if v < 10 { lit("7"); } else { lit("many"); } lit("</h1>\u{7f}</ol></mark>"); match choose(4) { 0 => { end(b, mark!(ol!(idm!(x) = bool!(k && k), classes!(loop { break (x) }, if { k } { Some(y) } else { None }, "", classes!()), cmp2!("\u{7f}", title = frag_match!(match v { 0 => frag!{classes!(), match k { true => y, false => x }}, 1..=9 => K7, _ => "many" }))), Value = concat!("007", ""), "a\"b" = bool!(k ^ true))) } 1 => { let h1 = classes!(loop { break (x) }, if { k } { Some(y) } else { None }, "", classes!()); let h2 = frag!{classes!(), match k { true => y, false => x }}; let h3 = ol!(idm!(x) = bool!(k && k), h1, cmp2!("\u{7f}", title = frag_match!(match v { 0 => h2, 1..=9 => K7, _ => "many" }))); let h4 = mark!(h3, Value = concat!("007", ""), "a\"b" = bool!(k ^ true)); end(b, h4) } 2 => {  end(b, mark!(ol!(idm!(x) = bool!(k && k), classes!(loop { break (x) }, if { k } { Some(y) } else { None }, "", classes!()), cmp2!("\u{7f}", title = frag_match!(match v { 0 => frag!{classes!(), match k { true => y, false => x }}, 1..=9 => K7, _ => "many" }))), Value = concat!("007", ""), "a\"b" = bool!(k ^ true))) } _ => { let h1 = frag!{classes!(), match k { true => y, false => x }}; let h2 = ol!(idm!(x) = bool!(k && k), classes!(loop { break (x) }, if { k } { Some(y) } else { None }, "", classes!()), cmp2!("\u{7f}", title = frag_match!(match v { 0 => h1, 1..=9 => K7, _ => "many" }))); end(b, mark!(h2, Value = concat!("007", ""), "a\"b" = bool!(k ^ true))) } } }
    h_18_g063(b) { let x = t(1); let y = t(1); let k = bool_(); esc(x); lit("<track true_=\""); esc(x); lit("\">"); if k { lit("false"); } lit("<h2 x=\""); esc(y); lit("\" "); esc(x); lit("=\"&lt;/p&gt;\"></h2>{"); esc(y); lit("|"); esc(y); esc(x); lit("}false"); lit(y); match choose(4) { 0 => { end(b, frag!(frag!(frag!(idf(x), track!(r#true_ = { let q = idf; q({ let q = idf; q((x)) }) })), frag_match!(if k { !true }), h2![id = bool!({ false }), x = &y[..], S0.m(x) = concat!("</p>", "")], cmp1!(b = frag!(y, x), a = *&y)), false, raw!(y))) } 1 => { let h1 = track!(r#true_ = { let q = idf; q({ let q = idf; q((x)) }) }); let h2 = frag!(idf(x), h1); let h3 = h2![id = bool!({ false }), x = &y[..], S0.m(x) = concat!("</p>", "")]; let h4 = frag!(y, x); let h5 = frag!(h2, frag_match!(if k { !true }), h3, cmp1!(b = h4, a = *&y)); let h6 = frag!(h5, false, raw!(y)); end(b, h6) } 2 => { let h1 = h2![id = bool!({ false }), x = &y[..], S0.m(x) = concat!("</p>", "")]; let h2 = frag!(y, x); let h3 = frag!(frag!(idf(x), track!(r#true_ = { let q = idf; q({ let q = idf; q((x)) }) })), frag_match!(if k { !true }), h1, cmp1!(b = h2, a = *&y)); let h4 = frag!(h3, false, raw!(y)); end(b, h4) } _ => { let h1 = frag!(idf(x), track!(r#true_ = { let q = idf; q({ let q = idf; q((x)) }) })); let h2 = frag!(frag!(h1, frag_match!(if k { !true }), h2![id = bool!({ false }), x = &y[..], S0.m(x) = concat!("</p>", "")], cmp1!(b = frag!(y, x), a = *&y)), false, raw!(y)); end(b, h2) } } }
    h_18_g064(b) { let v = u8_(); let k = bool_(); let l = bool_(); lit("<menu>"); if !k { lit("<fieldset><input div=\"\""); if k || l { lit(" a"); } lit(" _u=\""); lit(if !k { "true" } else { "false" }); lit("\"></fieldset>"); } else if !k { lit_dec(v as u32); } else { lit("0"); } lit("</menu>"); match choose(3) { 0 => { end(b, menu!{frag_match!(if !k { fieldset!(input!{div = classes!(), "a" = bool!(k || l), _u = !k}, { (); }) } else if k ^ true { v as u32 } else { 0 })}) } 1 => { let h1 = classes!(); let h2 = input!{div = h1, "a" = bool!(k || l), _u = !k}; let h3 = fieldset!(h2, { (); }); let h4 = menu!{frag_match!(if !k { h3 } else if k ^ true { v as u32 } else { 0 })}; end(b, h4) } _ => { let h1 = menu!{frag_match!(if !k { fieldset!(input!{div = classes!(), "a" = bool!(k || l), _u = !k}, { (); }) } else if k ^ true { v as u32 } else { 0 })}; end(b, h1) } } }
    h_18_g065(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<style use=\""); esc(y); lit(" "); esc(x); lit("\" dyn=\""); esc(x); lit(" "); if !k { esc(x); } lit(" "); esc(x); lit(" "); esc(x); lit("\"><img style=\"\" "); esc(y); lit("=\""); esc(x); lit("\"></style>"); match choose(4) { 0 => { end(b, style![r#use = classes!(P0 { a: "other", b: (y) }.b, [idf(x), "other"][0]), r#dyn = classes!{x, if !k { Some(x) } else { None }, loop { break (x) }, 'q: { break 'q x }}, img!(style = { "\u{1f468}\u{200d}\u{1f469}"; }, idm!(y) = x)]) } 1 => { let h1 = classes!(P0 { a: "other", b: (y) }.b, [idf(x), "other"][0]); let h2 = classes!{x, if !k { Some(x) } else { None }, loop { break (x) }, 'q: { break 'q x }}; let h3 = img!(style = { "\u{1f468}\u{200d}\u{1f469}"; }, idm!(y) = x); let h4 = style![r#use = h1, r#dyn = h2, h3]; end(b, h4) } 2 => { let h1 = classes!(P0 { a: "other", b: (y) }.b, [idf(x), "other"][0]); let h2 = classes!{x, if !k { Some(x) } else { None }, loop { break (x) }, 'q: { break 'q x }}; let h3 = style![r#use = h1, r#dyn = h2, img!(style = { "\u{1f468}\u{200d}\u{1f469}"; }, idm!(y) = x)]; end(b, h3) } _ => { let h1 = img!(style = { "\u{1f468}\u{200d}\u{1f469}"; }, idm!(y) = x); end(b, style![r#use = classes!(P0 { a: "other", b: (y) }.b, [idf(x), "other"][0]), r#dyn = classes!{x, if !k { Some(x) } else { None }, loop { break (x) }, 'q: { break 'q x }}, h1]) } } }
    h_18_g066(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<canvas>"); if k { lit("<h6 lang=\""); esc(y); lit("\">&quot; "); esc(y); lit(", "); esc(x); lit("</h6>"); } lit("<h6>2<track><hr "); esc(x); lit("=\"\" data-id0=\""); esc(x); lit(", "); esc(y); lit("\" del=\""); esc(x); lit("   \u{1}\">&amp;amp;</h6></canvas>"); match choose(4) { 0 => { end(b, canvas![if S0.m(k) { Some(h6![lang = S0.m(y), ("\""), classes!(frag!(frag!()), iter!(", ", [y, loop { break (x) }]))]) } else { None }, Some(h6!(10 % 4, track!{}, hr!(Some(x) = classes!(), (id0) = iter!(", ", [x, idf(y)]), del = classes!(x, ({ (" ") }), "\u{1}")), loop { break "&amp;" }))]) } 1 => { let h1 = classes!(frag!(frag!()), iter!(", ", [y, loop { break (x) }])); let h2 = h6![lang = S0.m(y), ("\""), h1]; let h3 = track!{}; let h4 = classes!(); let h5 = classes!(x, ({ (" ") }), "\u{1}"); let h6 = hr!(Some(x) = h4, (id0) = iter!(", ", [x, idf(y)]), del = h5); let h7 = h6!(10 % 4, h3, h6, loop { break "&amp;" }); let h8 = canvas![if S0.m(k) { Some(h2) } else { None }, Some({h7})]; end(b, h8) } 2 => { let h1 = classes!(frag!(frag!()), iter!(", ", [y, loop { break (x) }])); let h2 = track!{}; let h3 = classes!(); let h4 = classes!(x, ({ (" ") }), "\u{1}"); let h5 = hr!(Some(x) = h3, (id0) = iter!(", ", [x, idf(y)]), del = h4); end(b, canvas![if S0.m(k) { Some(h6![lang = S0.m(y), ("\""), h1]) } else { None }, Some(h6!(10 % 4, h2, h5, loop { break "&amp;" }))]) } _ => { let h1 = classes!(x, ({ (" ") }), "\u{1}"); let h2 = hr!(Some(x) = classes!(), (id0) = iter!(", ", [x, idf(y)]), del = h1); let h3 = h6!(10 % 4, track!{}, h2, loop { break "&amp;" }); end(b, canvas![if S0.m(k) { Some(h6![lang = S0.m(y), ("\""), classes!(frag!(frag!()), iter!(", ", [y, loop { break (x) }]))]) } else { None }, Some({h3})]) } } }
    h_18_g067(b) { let x = t(1); let k = bool_(); lit("<dt"); if k { lit(" _u"); } lit(" ref=\"世界\"><object><param lang=\"\u{1f468}\u{200d}\u{1f469}\""); if k { lit(" lang"); } lit(" bool=\"\"></object><table>&amp;="); lit(x); esc(x); lit("</table></dt>"); match choose(4) { 0 => { end(b, dt!({ let q = object!(param!(lang = "\u{1f468}\u{200d}\u{1f469}", lang = bool!(!!k), bool = classes!{})); q }, x = bool!((false)), idf(table!(frag!({ "&" }, const0!("=")), raw!(x), core::convert::identity::<&str>(x))), _u = bool!(!!k), r#ref = loop { break "世界" })) } 1 => { let h1 = classes!{}; let h2 = param!(lang = "\u{1f468}\u{200d}\u{1f469}", lang = bool!(!!k), bool = h1); let h3 = object!(h2); let h4 = frag!({ "&" }, const0!("=")); let h5 = table!(h4, raw!(x), core::convert::identity::<&str>(x)); let h6 = dt!({ let q = {h3}; q }, x = bool!((false)), idf({h5}), _u = bool!(!!k), r#ref = loop { break "世界" }); end(b, h6) } 2 => { let h1 = classes!{}; let h2 = object!(param!(lang = "\u{1f468}\u{200d}\u{1f469}", lang = bool!(!!k), bool = h1)); let h3 = table!(frag!({ "&" }, const0!("=")), raw!(x), core::convert::identity::<&str>(x)); let h4 = dt!({ let q = {h2}; q }, x = bool!((false)), idf({h3}), _u = bool!(!!k), r#ref = loop { break "世界" }); end(b, h4) } _ => { let h1 = classes!{}; let h2 = frag!({ "&" }, const0!("=")); end(b, dt!({ let q = object!(param!(lang = "\u{1f468}\u{200d}\u{1f469}", lang = bool!(!!k), bool = h1)); q }, x = bool!((false)), idf(table!(h2, raw!(x), core::convert::identity::<&str>(x))), _u = bool!(!!k), r#ref = loop { break "世界" })) } } }
    h_18_g068(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<sub>"); lit(x); lit("<hr blk=\"<base a1=\"data-x 9 "); esc(y); lit(" "); if k || l {  } else if k { esc(x); } else { lit("0"); } lit("\">\">"); if k || l { lit("<meter></meter>"); } lit("</sub>"); match choose(4) { 0 => { end(b, sub!(frag!{frag!()}, raw!({ x }), classes!(hr!({ "blk" } = base!{a1 = classes!{("data-x"), 3i8.pow(2), Some(y), frag_match!(if k || l { {} } else if (k) { String::from(x) } else { 0 })}})), if k || l { Some(meter!()) } else { None })) } 1 => { let h1 = frag!{frag!()}; let h2 = classes!{("data-x"), 3i8.pow(2), Some(y), frag_match!(if k || l { {} } else if (k) { String::from(x) } else { 0 })}; let h3 = base!{a1 = h2}; let h4 = hr!({ "blk" } = h3); let h5 = classes!(h4); let h6 = meter!(); let h7 = sub!(h1, raw!({ x }), h5, if k || l { Some(h6) } else { None }); end(b, h7) } 2 => { let h1 = frag!{frag!()}; let h2 = hr!({ "blk" } = base!{a1 = classes!{("data-x"), 3i8.pow(2), Some(y), frag_match!(if k || l { {} } else if (k) { String::from(x) } else { 0 })}}); let h3 = classes!(h2); let h4 = sub!(h1, raw!({ x }), h3, if k || l { Some(meter!()) } else { None }); end(b, h4) } _ => { let h1 = hr!({ "blk" } = base!{a1 = classes!{("data-x"), 3i8.pow(2), Some(y), frag_match!(if k || l { {} } else if (k) { String::from(x) } else { 0 })}}); let h2 = sub!(frag!{frag!()}, raw!({ x }), classes!(h1), if k || l { Some(meter!()) } else { None }); end(b, h2) } } }
    h_18_g069(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<a yield=\"1000.0\">{<menuitem buffer=\""); lit(if k { "true" } else { "false" }); lit(x); esc(x); lit("\">"); esc(y); esc(x); lit("</menuitem>|<a style=\"世界\" "); esc(x); lit("=\""); esc(x); lit("\">"); lit(if k { "true" } else { "false" }); lit("</a>}</a>"); match choose(4) { 0 => { end(b, a!(cmp1!(b = idf(a![style = const0!("世界"), k, { x } = classes!{S0.m(x)}, { "<<<<<<<<<<<<<<<<"; }]), a = menuitem!{iter!("", [{ y }, x]), buffer = frag!(S0.m(k), raw!(x), *&x)}), r#yield = 1e3)) } 1 => { let h1 = classes!{S0.m(x)}; let h2 = a![style = const0!("世界"), k, { x } = h1, { "<<<<<<<<<<<<<<<<"; }]; let h3 = frag!(S0.m(k), raw!(x), *&x); let h4 = menuitem!{iter!("", [{ y }, x]), buffer = h3}; let h5 = a!(cmp1!(b = idf({h2}), a = h4), r#yield = 1e3); end(b, h5) } 2 => { let h1 = classes!{S0.m(x)}; let h2 = menuitem!{iter!("", [{ y }, x]), buffer = frag!(S0.m(k), raw!(x), *&x)}; end(b, a!(cmp1!(b = idf(a![style = const0!("世界"), k, { x } = h1, { "<<<<<<<<<<<<<<<<"; }]), a = h2), r#yield = 1e3)) } _ => {  end(b, a!(cmp1!(b = idf(a![style = const0!("世界"), k, { x } = classes!{S0.m(x)}, { "<<<<<<<<<<<<<<<<"; }]), a = menuitem!{iter!("", [{ y }, x]), buffer = frag!(S0.m(k), raw!(x), *&x)}), r#yield = 1e3)) } } }
    h_18_g070(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<tfoot n0=\""); lit(if k { "true" } else { "false" }); lit("\" é=\"c\"><audio .prop=\"<embed a1=\""); esc(x); lit("\">\"><option>"); esc(x); lit("</option></audio>"); if k || l { esc(x); } else if k { lit("<section>1.5<param></section>"); } else { lit("0"); } esc(x); esc(y); lit("</tfoot>"); match choose(4) { 0 => { end(b, tfoot!(audio![option!(unsafe { idu(x) }), ".prop" = embed![a1 = 'q: { break 'q (|| [x, "other"][0])() }]], frag_match!(if k || l { 'q: { break 'q &x[..] } } else if (k) { cmp0!(1.5, param!()) } else { 0 }), NM[0] = ({ k }), x, "é" = 'c', y)) } 1 => { let h1 = embed![a1 = 'q: { break 'q (|| [x, "other"][0])() }]; let h2 = option!(unsafe { idu(x) }); let h3 = audio![h2, ".prop" = h1]; let h4 = param!(); let h5 = tfoot!(h3, frag_match!(if k || l { 'q: { break 'q &x[..] } } else if (k) { cmp0!(1.5, h4) } else { 0 }), NM[0] = ({ k }), x, "é" = 'c', y); end(b, h5) } 2 => { let h1 = embed![a1 = 'q: { break 'q (|| [x, "other"][0])() }]; let h2 = option!(unsafe { idu(x) }); let h3 = audio![h2, ".prop" = h1]; let h4 = tfoot!(h3, frag_match!(if k || l { 'q: { break 'q &x[..] } } else if (k) { cmp0!(1.5, param!()) } else { 0 }), NM[0] = ({ k }), x, "é" = 'c', y); end(b, h4) } _ => {  end(b, tfoot!(audio![option!(unsafe { idu(x) }), ".prop" = embed![a1 = 'q: { break 'q (|| [x, "other"][0])() }]], frag_match!(if k || l { 'q: { break 'q &x[..] } } else if (k) { cmp0!(1.5, param!()) } else { 0 }), NM[0] = ({ k }), x, "é" = 'c', y)) } } }
    h_18_g071(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<bdo>"); esc(x); lit("<template"); if !k { lit(" "); esc(y); } lit("><wbr></template></bdo>"); match choose(3) { 0 => { end(b, bdo!(String::from(x), template!(idm!(y) = bool!(k ^ true), wbr!()))) } 1 => { let h1 = wbr!(); let h2 = template!(idm!(y) = bool!(k ^ true), h1); let h3 = bdo!(String::from(x), h2); end(b, h3) } _ => { let h1 = bdo!(String::from(x), template!(idm!(y) = bool!(k ^ true), wbr!())); end(b, h1) } } }
    h_18_g072(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("{<h4 data_x=\"%\">"); esc(x); lit("<meta href=\""); lit(if k { "true" } else { "false" }); lit("\"><hr aria-label=\" "); lit(if k { "true" } else { "false" }); lit("\" p=\""); esc(x); lit("\"></h4>|<input a&quot;b=\""); if k { esc(x); } lit("\">}<script><col @click=\"0123456789abcdef&lt;\" id=\"\" "); esc(y); lit("=\"abc\"></script><h6><h1><br class=\"0 "); esc(y); lit("\" "); esc(x); lit("=\"/&gt;\"></h1><link :bind=\""); esc(x); lit("\">"); if k { lit("<wbr>"); } lit("</h6>"); match choose(4) { 0 => { end(b, frag!(cmp1!(b = input!("a\"b" = if (k) { Some(x) } else { None }), a = h4!(classes![W0(x)], frag!("", frag!()), meta!(href = k), hr!["aria-label" = classes!((), S0.m(k)), p = classes!(String::from(x))], data_x = ("%"),)), script!(col!("@click" = loop { break "0123456789abcdef<" }, id = frag![], { { y } } = ({ ("abc") }))), h6!(cmp2!(link![":bind" = Some(x).unwrap()], title = br!(class = classes!(0, core::convert::identity::<&str>(y)), { let q = x; q } = const0!("/>"))), frag_match!(if { k } { wbr!{} })))) } 1 => { let h1 = input!("a\"b" = if (k) { Some(x) } else { None }); let h2 = classes![W0(x)]; let h3 = frag!("", frag!()); let h4 = meta!(href = k); let h5 = classes!((), S0.m(k)); let h6 = classes!(String::from(x)); let h7 = hr!["aria-label" = h5, p = h6]; let h8 = h4!(h2, h3, h4, h7, data_x = ("%"),); let h9 = frag![]; let h10 = col!("@click" = loop { break "0123456789abcdef<" }, id = h9, { { y } } = ({ ("abc") })); let h11 = script!(h10); let h12 = link![":bind" = Some(x).unwrap()]; let h13 = classes!(0, core::convert::identity::<&str>(y)); let h14 = br!(class = h13, { let q = x; q } = const0!("/>")); let h15 = wbr!{}; let h16 = h6!(cmp2!(h12, title = h14), frag_match!(if { k } { h15 })); let h17 = frag!(cmp1!(b = h1, a = h8), h11, h16); end(b, h17) } 2 => { let h1 = input!("a\"b" = if (k) { Some(x) } else { None }); let h2 = classes![W0(x)]; let h3 = frag!("", frag!()); let h4 = classes!((), S0.m(k)); let h5 = hr!["aria-label" = h4, p = classes!(String::from(x))]; let h6 = frag![]; let h7 = col!("@click" = loop { break "0123456789abcdef<" }, id = h6, { { y } } = ({ ("abc") })); let h8 = classes!(0, core::convert::identity::<&str>(y)); let h9 = h6!(cmp2!(link![":bind" = Some(x).unwrap()], title = br!(class = h8, { let q = x; q } = const0!("/>"))), frag_match!(if { k } { wbr!{} })); let h10 = frag!(cmp1!(b = h1, a = h4!(h2, h3, meta!(href = k), h5, data_x = ("%"),)), script!(h7), h9); end(b, h10) } _ => { let h1 = frag!("", frag!()); let h2 = hr!["aria-label" = classes!((), S0.m(k)), p = classes!(String::from(x))]; let h3 = h4!(classes![W0(x)], h1, meta!(href = k), h2, data_x = ("%"),); let h4 = script!(col!("@click" = loop { break "0123456789abcdef<" }, id = frag![], { { y } } = ({ ("abc") }))); let h5 = link![":bind" = Some(x).unwrap()]; end(b, frag!(cmp1!(b = input!("a\"b" = if (k) { Some(x) } else { None }), a = h3), h4, h6!(cmp2!(h5, title = br!(class = classes!(0, core::convert::identity::<&str>(y)), { let q = x; q } = const0!("/>"))), frag_match!(if { k } { wbr!{} })))) } } }
    h_18_g073(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<col"); if k { lit(" "); esc(x); } lit(" aria-label=\""); esc(x); lit("\"> "); match choose(3) { 0 => { end(b, classes!(col!(S0.m(x) = bool!({ k }), "aria-label" = classes!(x)), frag! {},)) } 1 => { let h1 = classes!(x); let h2 = col!(S0.m(x) = bool!({ k }), "aria-label" = h1); let h3 = classes!(h2, frag! {},); end(b, h3) } _ => { let h1 = col!(S0.m(x) = bool!({ k }), "aria-label" = classes!(x)); let h2 = classes!(h1, frag! {},); end(b, h2) } } }
    h_18_g074(b) { let x = t(1); let y = t(1); lit("<audio><ul><b "); esc(x); lit("=\""); esc(x); lit("\" q=\""); lit(y); lit("\" "); esc(x); lit("=\"\u{1}\">"); esc(y); lit("</b><wbr f0=\""); esc(x); lit(" \"><h1>"); esc(x); lit("</h1></ul><canvas :bind=\"\u{feff}\" "); esc(x); lit("=\"a\"><meta><b>"); lit(x); lit("</b></canvas></audio>"); match choose(4) { 0 => { end(b, audio!(ul!(b![y, { { x } } = x as &str, nm("q") = raw!({ y }), [x][0] = "\u{1}"], frag!(), wbr!(S0.f = classes![idm!(x), classes!(),],), h1!(x),), canvas!{":bind" = loop { break "\u{feff}" }, meta!{}, Some(b!(laby::raw!(x))), S0.m(x) = "a"})) } 1 => { let h1 = b![y, { { x } } = x as &str, nm("q") = raw!({ y }), [x][0] = "\u{1}"]; let h2 = frag!(); let h3 = classes![idm!(x), classes!(),]; let h4 = wbr!(S0.f = h3,); let h5 = h1!(x); let h6 = ul!(h1, h2, h4, h5,); let h7 = meta!{}; let h8 = b!(laby::raw!(x)); let h9 = canvas!{":bind" = loop { break "\u{feff}" }, h7, Some({h8}), S0.m(x) = "a"}; let h10 = audio!(h6, h9); end(b, h10) } 2 => { let h1 = h1!(x); let h2 = meta!{}; let h3 = audio!(ul!(b![y, { { x } } = x as &str, nm("q") = raw!({ y }), [x][0] = "\u{1}"], frag!(), wbr!(S0.f = classes![idm!(x), classes!(),],), h1,), canvas!{":bind" = loop { break "\u{feff}" }, h2, Some(b!(laby::raw!(x))), S0.m(x) = "a"}); end(b, h3) } _ => { let h1 = frag!(); let h2 = classes![idm!(x), classes!(),]; let h3 = wbr!(S0.f = h2,); let h4 = h1!(x); let h5 = b!(laby::raw!(x)); end(b, audio!(ul!(b![y, { { x } } = x as &str, nm("q") = raw!({ y }), [x][0] = "\u{1}"], h1, h3, h4,), canvas!{":bind" = loop { break "\u{feff}" }, meta!{}, Some({h5}), S0.m(x) = "a"})) } } }
    h_18_g075(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<rtc><i frag=\""); esc(x); lit("\" aria-label=\"&lt;!--\">"); if k { esc(y); } lit("</i><wbr .prop=\""); esc(x); lit("\""); if k { lit(" "); esc(x); } lit(" data_x></rtc>"); match choose(3) { 0 => { end(b, rtc!(i!(if (k) { Some(y) } else { None }, frag = if let Some(q) = Some(unsafe { idu(x) }) { q } else { "no" }, "aria-label" = loop { break "<!--" }), wbr![".prop" = frag![unsafe { idu(S0.m(x)) }], { { x } } = bool!({ k }), data_x = bool!((true))],)) } 1 => { let h1 = i!(if (k) { Some(y) } else { None }, frag = if let Some(q) = Some(unsafe { idu(x) }) { q } else { "no" }, "aria-label" = loop { break "<!--" }); let h2 = frag![unsafe { idu(S0.m(x)) }]; let h3 = wbr![".prop" = h2, { { x } } = bool!({ k }), data_x = bool!((true))]; let h4 = rtc!(h1, h3,); end(b, h4) } _ => { let h1 = wbr![".prop" = frag![unsafe { idu(S0.m(x)) }], { { x } } = bool!({ k }), data_x = bool!((true))]; end(b, rtc!(i!(if (k) { Some(y) } else { None }, frag = if let Some(q) = Some(unsafe { idu(x) }) { q } else { "no" }, "aria-label" = loop { break "<!--" }), h1,)) } } }
    h_18_g076(b) { let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<fieldset "); esc(y); lit("=\"0\">6"); if k { lit("<figure><param"); if k { lit(" data-x"); } if v < 10 { lit(" a&quot;b"); } lit("></figure>"); } lit("</fieldset>"); match choose(4) { 0 => { end(b, fieldset!({ { y } } = concat!("0", ""), { 5; 6 }, if (|| k)() { Some(figure!({}, param!("data-x" = bool!(k), "a\"b" = bool!(matches!(v, 0..=9))))) } else { None })) } 1 => { let h1 = param!("data-x" = bool!(k), "a\"b" = bool!(matches!(v, 0..=9))); let h2 = figure!({}, h1); let h3 = fieldset!({ { y } } = concat!("0", ""), { 5; 6 }, if (|| k)() { Some(h2) } else { None }); end(b, h3) } 2 => { let h1 = fieldset!({ { y } } = concat!("0", ""), { 5; 6 }, if (|| k)() { Some(figure!({}, param!("data-x" = bool!(k), "a\"b" = bool!(matches!(v, 0..=9))))) } else { None }); end(b, h1) } _ => { let h1 = figure!({}, param!("data-x" = bool!(k), "a\"b" = bool!(matches!(v, 0..=9)))); end(b, fieldset!({ { y } } = concat!("0", ""), { 5; 6 }, if (|| k)() { Some(h1) } else { None })) } } }
    h_18_g077(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<summary x=\"&#39;\"><td style=\""); esc(y); lit("\"></td>"); if k || k { esc(x); } else { esc(y); } lit("<img "); esc(x); lit("=\""); esc(y); lit("\" _u=\"\"></summary>"); match choose(4) { 0 => { end(b, summary!{td!(style = [Some(y).unwrap(), "other"][0]), x = loop { break "'" }, classes![frag!(frag_match!(if k || k { loop { break (x) } } else { unsafe { idu(y) } }), img!{{ let q = x; q } = idm!(y), _u = classes!{}},)]}) } 1 => { let h1 = td!(style = [Some(y).unwrap(), "other"][0]); let h2 = classes!{}; let h3 = img!{{ let q = x; q } = idm!(y), _u = h2}; let h4 = frag!(frag_match!(if k || k { loop { break (x) } } else { unsafe { idu(y) } }), h3,); let h5 = classes![h4]; let h6 = summary!{h1, x = loop { break "'" }, h5}; end(b, h6) } 2 => { let h1 = td!(style = [Some(y).unwrap(), "other"][0]); let h2 = frag!(frag_match!(if k || k { loop { break (x) } } else { unsafe { idu(y) } }), img!{{ let q = x; q } = idm!(y), _u = classes!{}},); let h3 = classes![h2]; end(b, summary!{h1, x = loop { break "'" }, h3}) } _ => { let h1 = classes!{}; let h2 = summary!{td!(style = [Some(y).unwrap(), "other"][0]), x = loop { break "'" }, classes![frag!(frag_match!(if k || k { loop { break (x) } } else { unsafe { idu(y) } }), img!{{ let q = x; q } = idm!(y), _u = h1},)]}; end(b, h2) } } }
    h_18_g078(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<br"); if v < 10 { lit(" title"); } if k && l { lit(" aria-label"); } lit(">"); if !k { lit("a\r\nb"); } else if k { lit("<area div=\""); esc(x); lit("\" frag=\""); lit(if k { "true" } else { "false" }); lit("\">"); } else { lit("0"); } match choose(4) { 0 => { end(b, frag!{br!{title = bool!(matches!(v, 0..=9)), "aria-label" = bool!(k && l)}, frag_match!(if !k { "a\r\nb" } else if (|| k)() { area!(div = *&x, frag = (k)) } else { 0 })}) } 1 => { let h1 = br!{title = bool!(matches!(v, 0..=9)), "aria-label" = bool!(k && l)}; let h2 = area!(div = *&x, frag = (k)); let h3 = frag!{h1, frag_match!(if !k { "a\r\nb" } else if (|| k)() { h2 } else { 0 })}; end(b, h3) } 2 => { let h1 = br!{title = bool!(matches!(v, 0..=9)), "aria-label" = bool!(k && l)}; end(b, frag!{h1, frag_match!(if !k { "a\r\nb" } else if (|| k)() { area!(div = *&x, frag = (k)) } else { 0 })}) } _ => { let h1 = frag!{br!{title = bool!(matches!(v, 0..=9)), "aria-label" = bool!(k && l)}, frag_match!(if !k { "a\r\nb" } else if (|| k)() { area!(div = *&x, frag = (k)) } else { 0 })}; end(b, h1) } } }
    h_18_g079(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<tr><area "); esc(x); lit("=\"/&gt;\"><meta"); if v < 10 { lit(" static"); } lit("><base>"); lit(if k { "true" } else { "false" }); lit("</tr><embed ref=\"\">0123456789abcdef&lt;<rtc><colgroup>\0</colgroup></rtc>"); match choose(4) { 0 => { end(b, frag!(frag!(tr!{area!({ let q = x; q } = idf("/>")), meta![r#static = bool!(matches!(v, 0..=9))], base![], ({ k })}), embed!{r#ref = classes!()}, ("0123456789abcdef<"), rtc!(colgroup!{match 0 { _ => "\0" }}))) } 1 => { let h1 = area!({ let q = x; q } = idf("/>")); let h2 = meta![r#static = bool!(matches!(v, 0..=9))]; let h3 = base![]; let h4 = tr!{h1, h2, h3, ({ k })}; let h5 = frag!(h4); let h6 = classes!(); let h7 = embed!{r#ref = h6}; let h8 = colgroup!{match 0 { _ => "\0" }}; let h9 = rtc!(h8); let h10 = frag!(h5, h7, ("0123456789abcdef<"), h9); end(b, h10) } 2 => { let h1 = area!({ let q = x; q } = idf("/>")); let h2 = base![]; let h3 = embed!{r#ref = classes!()}; let h4 = colgroup!{match 0 { _ => "\0" }}; let h5 = frag!(frag!(tr!{h1, meta![r#static = bool!(matches!(v, 0..=9))], h2, ({ k })}), h3, ("0123456789abcdef<"), rtc!(h4)); end(b, h5) } _ => { let h1 = frag!(tr!{area!({ let q = x; q } = idf("/>")), meta![r#static = bool!(matches!(v, 0..=9))], base![], ({ k })}); let h2 = frag!(h1, embed!{r#ref = classes!()}, ("0123456789abcdef<"), rtc!(colgroup!{match 0 { _ => "\0" }})); end(b, h2) } } }
    h_18_g080(b) { let x = t(1); let y = t(1); lit("<iframe yield=\""); esc(y); lit("\">\r\n<base> <source><base><param>"); esc(x); lit("</iframe>"); match choose(4) { 0 => { end(b, iframe!{if true { "\r\n" } else { "\r\n" }, classes!(), classes!(base!{}, frag!()), r#yield = y, frag!(source![], base!(), param!{}, (|| x)())}) } 1 => { let h1 = classes!(); let h2 = base!{}; let h3 = classes!(h2, frag!()); let h4 = source![]; let h5 = base!(); let h6 = param!{}; let h7 = frag!(h4, h5, h6, (|| x)()); let h8 = iframe!{if true { "\r\n" } else { "\r\n" }, h1, h3, r#yield = y, h7}; end(b, h8) } 2 => { let h1 = iframe!{if true { "\r\n" } else { "\r\n" }, classes!(), classes!(base!{}, frag!()), r#yield = y, frag!(source![], base!(), param!{}, (|| x)())}; end(b, h1) } _ => { let h1 = base!(); let h2 = frag!(source![], h1, param!{}, (|| x)()); end(b, iframe!{if true { "\r\n" } else { "\r\n" }, classes!(), classes!(base!{}, frag!()), r#yield = y, h2}) } } }
    h_18_g081(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<hr> "); esc(y); lit("<tbody type=\""); if v == 0 { lit("<source>"); } else if v < 10 { lit("x y"); } else { lit("many"); } lit("\" "); esc(y); lit("=\""); lit_dec(v as u32); esc(x); lit("\""); if k { lit(" é"); } lit("></tbody>"); match choose(4) { 0 => { end(b, frag![classes!(frag![hr![[x][0] = bool!(({ (false) }))],], Some(y)), { let q = tbody!{r#type = frag_match!(match v { 0 => source!(), 1..=9 => match 0 { _ => "x y" }, _ => "many" }), [y][0] = frag!{classes!(), v, ({ let q = x; q }),}, { ";"; }, "é" = bool!(S0.m(k))}; q }]) } 1 => { let h1 = hr![[x][0] = bool!(({ (false) }))]; let h2 = frag![h1,]; let h3 = classes!(h2, Some(y)); let h4 = source!(); let h5 = frag!{classes!(), v, ({ let q = x; q }),}; let h6 = tbody!{r#type = frag_match!(match v { 0 => h4, 1..=9 => match 0 { _ => "x y" }, _ => "many" }), [y][0] = h5, { ";"; }, "é" = bool!(S0.m(k))}; let h7 = frag![h3, { let q = {h6}; q }]; end(b, h7) } 2 => { let h1 = classes!(frag![hr![[x][0] = bool!(({ (false) }))],], Some(y)); let h2 = frag!{classes!(), v, ({ let q = x; q }),}; let h3 = frag![h1, { let q = tbody!{r#type = frag_match!(match v { 0 => source!(), 1..=9 => match 0 { _ => "x y" }, _ => "many" }), [y][0] = h2, { ";"; }, "é" = bool!(S0.m(k))}; q }]; end(b, h3) } _ => {  end(b, frag![classes!(frag![hr![[x][0] = bool!(({ (false) }))],], Some(y)), { let q = tbody!{r#type = frag_match!(match v { 0 => source!(), 1..=9 => match 0 { _ => "x y" }, _ => "many" }), [y][0] = frag!{classes!(), v, ({ let q = x; q }),}, { ";"; }, "é" = bool!(S0.m(k))}; q }]) } } }
    h_18_g082(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<h4 "); esc(x); lit("=\"a\">"); if k { esc(x); } if k {  } else { esc(x); } lit("</h4> "); lit(if k { "true" } else { "false" }); match choose(3) { 0 => { end(b, classes!(h4!((x, 1).0 = idf("a"), title = bool!({ false }), classes![if S0.m(k) { Some(x) } else { None }], frag_match!(if k { frag!{} } else { x })), idb(k))) } 1 => { let h1 = classes![if S0.m(k) { Some(x) } else { None }]; let h2 = frag!{}; let h3 = h4!((x, 1).0 = idf("a"), title = bool!({ false }), h1, frag_match!(if k { h2 } else { x })); let h4 = classes!(h3, idb(k)); end(b, h4) } _ => { let h1 = classes![if S0.m(k) { Some(x) } else { None }]; let h2 = frag!{}; let h3 = h4!((x, 1).0 = idf("a"), title = bool!({ false }), h1, frag_match!(if k { h2 } else { x })); end(b, classes!(h3, idb(k))) } } }
    h_18_g083(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("{1.50"); esc(y); if k { esc(y); } lit("|9"); esc(x); lit("} <header"); if k { lit(" a&quot;b"); } lit(" buffer>"); esc(x); esc(x); lit("</header>true<samp><s fn=\""); esc(y); lit("\"><area"); if v < 10 { lit(" buffer"); } lit(" é=\"28\"><hr><col></s></samp>2.0"); match choose(4) { 0 => { end(b, frag![classes!(cmp1!(b = frag!("", 3i8.pow(2), ({ let q = ({ let q = x; q }); q })), a = frag!(const0!("1.50"), String::from(y), if (k) { Some(y) } else { None })), S0.m(header!((|| x)(), "a\"b" = bool!(k), x, buffer = bool!((true)))),), 1 < 2, samp!(s!{area!{buffer = bool!(matches!(v, 0..=9)), "é" = 7u32 << 2}, hr!(), col!(), r#fn = loop { break (y) }}), match 0 { _ => 2.0 }]) } 1 => { let h1 = frag!("", 3i8.pow(2), ({ let q = ({ let q = x; q }); q })); let h2 = frag!(const0!("1.50"), String::from(y), if (k) { Some(y) } else { None }); let h3 = header!((|| x)(), "a\"b" = bool!(k), x, buffer = bool!((true))); let h4 = classes!(cmp1!(b = h1, a = h2), S0.m({h3}),); let h5 = area!{buffer = bool!(matches!(v, 0..=9)), "é" = 7u32 << 2}; let h6 = hr!(); let h7 = col!(); let h8 = s!{h5, h6, h7, r#fn = loop { break (y) }}; let h9 = samp!(h8); let h10 = frag![h4, 1 < 2, h9, match 0 { _ => 2.0 }]; end(b, h10) } 2 => { let h1 = frag!("", 3i8.pow(2), ({ let q = ({ let q = x; q }); q })); let h2 = frag!(const0!("1.50"), String::from(y), if (k) { Some(y) } else { None }); let h3 = classes!(cmp1!(b = h1, a = h2), S0.m(header!((|| x)(), "a\"b" = bool!(k), x, buffer = bool!((true)))),); let h4 = col!(); let h5 = samp!(s!{area!{buffer = bool!(matches!(v, 0..=9)), "é" = 7u32 << 2}, hr!(), h4, r#fn = loop { break (y) }}); end(b, frag![h3, 1 < 2, h5, match 0 { _ => 2.0 }]) } _ => { let h1 = frag!("", 3i8.pow(2), ({ let q = ({ let q = x; q }); q })); let h2 = classes!(cmp1!(b = h1, a = frag!(const0!("1.50"), String::from(y), if (k) { Some(y) } else { None })), S0.m(header!((|| x)(), "a\"b" = bool!(k), x, buffer = bool!((true)))),); let h3 = s!{area!{buffer = bool!(matches!(v, 0..=9)), "é" = 7u32 << 2}, hr!(), col!(), r#fn = loop { break (y) }}; end(b, frag![h2, 1 < 2, samp!(h3), match 0 { _ => 2.0 }]) } } }
    h_18_g084(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<map"); if k { lit(" match"); } lit(" true_=\"UP\"><wbr>"); if v == 7 || k { lit("<h3>long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt;"); esc(x); lit("</h3>"); } lit("</map>"); match choose(4) { 0 => { end(b, map![wbr!{}, r#match = bool!(k), classes!(if v == 7 || k { Some(h3!["long text that goes on and on & on, past thirty two bytes <i>", W0(x)]) } else { None }), r#true_ = if true { "UP" } else { "UP" }, id = bool!({ false })]) } 1 => { let h1 = wbr!{}; let h2 = h3!["long text that goes on and on & on, past thirty two bytes <i>", W0(x)]; let h3 = classes!(if v == 7 || k { Some(h2) } else { None }); let h4 = map![h1, r#match = bool!(k), h3, r#true_ = if true { "UP" } else { "UP" }, id = bool!({ false })]; end(b, h4) } 2 => { let h1 = classes!(if v == 7 || k { Some(h3!["long text that goes on and on & on, past thirty two bytes <i>", W0(x)]) } else { None }); let h2 = map![wbr!{}, r#match = bool!(k), h1, r#true_ = if true { "UP" } else { "UP" }, id = bool!({ false })]; end(b, h2) } _ => { let h1 = classes!(if v == 7 || k { Some(h3!["long text that goes on and on & on, past thirty two bytes <i>", W0(x)]) } else { None }); end(b, map![wbr!{}, r#match = bool!(k), h1, r#true_ = if true { "UP" } else { "UP" }, id = bool!({ false })]) } } }
    h_18_g085(b) { let x = t(1); let y = t(1); let k = bool_(); esc(x); esc(x); lit("<template _u=\""); lit(if k { "true" } else { "false" }); lit(" c\" data-x=\""); esc(y); lit("\" &lt;=\""); esc(x); lit("\"><area></template>"); match choose(4) { 0 => { end(b, classes!(frag!(frag!{frag! {}, idm!(unsafe { idu(x) }), x}, template!(_u = classes!{((|| k)()), ('c')}, "data-x" = S0.m(core::convert::identity::<&str>(y)), area!(), '<' = x,),))) } 1 => { let h1 = frag!{frag! {}, idm!(unsafe { idu(x) }), x}; let h2 = classes!{((|| k)()), ('c')}; let h3 = area!(); let h4 = template!(_u = h2, "data-x" = S0.m(core::convert::identity::<&str>(y)), h3, '<' = x,); let h5 = frag!(h1, h4,); let h6 = classes!(h5); end(b, h6) } 2 => { let h1 = frag!{frag! {}, idm!(unsafe { idu(x) }), x}; let h2 = classes!{((|| k)()), ('c')}; let h3 = template!(_u = h2, "data-x" = S0.m(core::convert::identity::<&str>(y)), area!(), '<' = x,); end(b, classes!(frag!(h1, h3,))) } _ => { let h1 = classes!{((|| k)()), ('c')}; end(b, classes!(frag!(frag!{frag! {}, idm!(unsafe { idu(x) }), x}, template!(_u = h1, "data-x" = S0.m(core::convert::identity::<&str>(y)), area!(), '<' = x,),))) } } }
    h_18_g086(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<map é=\""); lit(if k { "true" } else { "false" }); lit("\">"); if k || k { lit("1000"); } lit("<section>"); lit(x); lit("<li"); if k { lit(" aria-label"); } lit(">"); lit_dec(v as u32); lit("</li></section><div "); esc(x); lit("=\"0123456789abcdef&lt;\"></div></map>"); match choose(4) { 0 => { end(b, map!(frag_match!(if k || k { (1_000) }), "é" = ({ k }), cmp0!(raw!({ x }), li!{"aria-label" = bool!({ k }), v}), div!([x][0] = ("0123456789abcdef<")))) } 1 => { let h1 = li!{"aria-label" = bool!({ k }), v}; let h2 = div!([x][0] = ("0123456789abcdef<")); let h3 = map!(frag_match!(if k || k { (1_000) }), "é" = ({ k }), cmp0!(raw!({ x }), h1), h2); end(b, h3) } 2 => { let h1 = map!(frag_match!(if k || k { (1_000) }), "é" = ({ k }), cmp0!(raw!({ x }), li!{"aria-label" = bool!({ k }), v}), div!([x][0] = ("0123456789abcdef<"))); end(b, h1) } _ => { let h1 = li!{"aria-label" = bool!({ k }), v}; let h2 = map!(frag_match!(if k || k { (1_000) }), "é" = ({ k }), cmp0!(raw!({ x }), h1), div!([x][0] = ("0123456789abcdef<"))); end(b, h2) } } }
    h_18_g087(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); if !k { lit("<sup "); esc(x); lit("=\""); esc(x); lit("\">true<embed v-on:a.b=\"255\"></sup>"); } else if k { lit("<thead p=\""); esc(x); lit("\">"); esc(x); lit("</thead>"); } else { lit("0"); } lit(" "); match choose(4) { 0 => { end(b, classes!{frag_match!(if !k { sup!(1 < 2, { x } = { x }, frag!(), embed!("v-on:a.b" = u8::MAX)) } else if S0.m(k) { thead![p = (x), idm!(x), "aria-label" = bool!(({ (false) }))] } else { 0 }), frag!()}) } 1 => { let h1 = frag!(); let h2 = embed!("v-on:a.b" = u8::MAX); let h3 = sup!(1 < 2, { x } = { x }, h1, h2); let h4 = thead![p = (x), idm!(x), "aria-label" = bool!(({ (false) }))]; let h5 = frag!(); let h6 = classes!{frag_match!(if !k { h3 } else if S0.m(k) { h4 } else { 0 }), h5}; end(b, h6) } 2 => { let h1 = sup!(1 < 2, { x } = { x }, frag!(), embed!("v-on:a.b" = u8::MAX)); let h2 = thead![p = (x), idm!(x), "aria-label" = bool!(({ (false) }))]; let h3 = frag!(); let h4 = classes!{frag_match!(if !k { h1 } else if S0.m(k) { h2 } else { 0 }), h3}; end(b, h4) } _ => {  end(b, classes!{frag_match!(if !k { sup!(1 < 2, { x } = { x }, frag!(), embed!("v-on:a.b" = u8::MAX)) } else if S0.m(k) { thead![p = (x), idm!(x), "aria-label" = bool!(({ (false) }))] } else { 0 }), frag!()}) } } }
    h_18_g088(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<table é=\""); if v < 10 { esc(x); } else { lit("<wbr id=\""); esc(x); lit("\">"); } lit("\" .prop=\"\""); if k { lit(" wrap"); } lit(">"); lit_dec(v as u32); lit("</table>"); match choose(3) { 0 => { end(b, table!["é" = frag_match!(if matches!(v, 0..=9) { x } else { wbr![id = { let q = idf; q(idm!(x)) },] }), ".prop" = Some(()), v, (("wrap")) = bool!((k))]) } 1 => { let h1 = wbr![id = { let q = idf; q(idm!(x)) },]; let h2 = table!["é" = frag_match!(if matches!(v, 0..=9) { x } else { h1 }), ".prop" = Some(()), v, (("wrap")) = bool!((k))]; end(b, h2) } _ => { let h1 = table!["é" = frag_match!(if matches!(v, 0..=9) { x } else { wbr![id = { let q = idf; q(idm!(x)) },] }), ".prop" = Some(()), v, (("wrap")) = bool!((k))]; end(b, h1) } } }
    h_18_g089(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<html><base style=\"&gt;\">"); if k || l { lit("<code>"); lit_dec(v as u32); lit("&#39;</code>"); } lit("</html> <q>"); esc(x); lit("</q><menu in=\""); esc(x); lit("\">é</menu>"); match choose(4) { 0 => { end(b, classes!(html!{base!(style = ({ (">") })), if k || l { Some(code![v, '\'']) } else { None }}, frag!(q!(Some(if let Some(q) = Some(x) { q } else { "no" }).unwrap()), menu!{r#in = (move |q: &'static str| q)(x), "é",}))) } 1 => { let h1 = base!(style = ({ (">") })); let h2 = code![v, '\'']; let h3 = html!{h1, if k || l { Some(h2) } else { None }}; let h4 = q!(Some(if let Some(q) = Some(x) { q } else { "no" }).unwrap()); let h5 = menu!{r#in = (move |q: &'static str| q)(x), "é",}; let h6 = frag!(h4, h5); let h7 = classes!(h3, h6); end(b, h7) } 2 => { let h1 = base!(style = ({ (">") })); let h2 = code![v, '\'']; let h3 = classes!(html!{h1, if k || l { Some(h2) } else { None }}, frag!(q!(Some(if let Some(q) = Some(x) { q } else { "no" }).unwrap()), menu!{r#in = (move |q: &'static str| q)(x), "é",})); end(b, h3) } _ => { let h1 = base!(style = ({ (">") })); end(b, classes!(html!{h1, if k || l { Some(code![v, '\'']) } else { None }}, frag!(q!(Some(if let Some(q) = Some(x) { q } else { "no" }).unwrap()), menu!{r#in = (move |q: &'static str| q)(x), "é",}))) } } }
}
