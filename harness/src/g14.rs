//! trees of elements (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{string::String, format, vec, vec::Vec};
fn idf<T>(v: T) -> T { v }
fn idb(v: bool) -> bool { v }
unsafe fn idu<T>(v: T) -> T { v }
struct S0s { f: &'static str }
static S0: S0s = S0s { f: "f0" };
impl S0s { fn m<T>(&self, v: T) -> T { v } }
struct P0<A, B> { a: A, b: B }
struct W0<T>(T);
impl<T: Render> Render for W0<T> { fn render(self, buffer: &mut Buffer) { self.0.render(buffer) } }
const K7: u8 = 7;
mod mk { pub const SEV: u8 = 7; }
const NM: [&str; 2] = ["n0", "n1"];
fn nm(s: &'static str) -> &'static str { s }
#[allow(non_upper_case_globals)] const id0: &str = "data-id0";
macro_rules! idm { ($e:expr) => { $e } }
macro_rules! const0 { ($e:expr) => {{ const C0: &str = $e; C0 }} }
#[laby] fn cmp0(#[rest] r: impl Render) -> impl Render { section!(r) }
#[laby] fn cmp1(a: impl Render, #[default("dflt")] b: impl Render) -> impl Render { frag!("{", a, "|", b, "}") }
#[laby] fn cmp2(title: impl Render, #[rest] body: impl Render) -> impl Render { frag!(h1!(title), body) }
case! {
    h_14_g000(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<a type=\"{{}}\" lang=\"255\" title=\""); esc(x); lit("\"><track"); if k { lit(" é"); } lit(" "); esc(x); lit("=\"#\""); if !k { lit(" :bind"); } lit(">"); esc(x); lit("</a>"); end(b, a!(track!{"é" = bool!(idb(k)), Some(x) = "#", ":bind" = bool!(k ^ true)}, r#type = "{{}}", idm!(x), lang = !0u8, title = x as &str)) }
    h_14_g001(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<bdi "); esc(y); lit("=\"q&quot;q\""); if v == 7 || k { lit(" v-on:a.b"); } lit(">"); esc(x); lit("<body "); esc(y); lit("=\"0123456789abcdef\" del=\""); esc(x); esc(x); esc(y); lit("\">say &quot;hi&quot;<embed "); esc(y); lit("=\""); lit_dec(v as u32); lit("\" onclick=\"\" del=\""); esc(y); lit("\">  <embed"); if k { lit(" :bind"); } lit(" style=\""); esc(x); lit("\"></body></bdi>"); end(b, bdi!{{ y } = ({ (r#"q"q"#) }), idf((S0.m(x))), "v-on:a.b" = bool!(v == 7 || k), body!(idf(y) = "0123456789abcdef", ({ ("say \"hi\"") }), classes!(embed!({ let q = y; q } = v, onclick = classes!(), del = if let Some(q) = Some(y) { q } else { "no" }), frag!(), embed!{":bind" = bool!(k), idf(y) = bool!({ false }), style = classes![x]}), del = frag!(P0 { a: "other", b: x }.b, 'q: { break 'q x }, "", unsafe { idu(&y[..]) }))}) }
    h_14_g002(b) { let v = u8_(); lit("<cite>"); lit_dec(v as u32); lit("e\u{301}<param></cite>"); end(b, cite!({ v }, "e\u{301}", classes![], param![])) }
    h_14_g003(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<details>"); if k && k { lit("<blockquote></blockquote>"); } lit(x); lit("{"); if k { esc(x); } else { lit("\u{2028}"); } lit("|dflt}"); esc(y); lit("</details>"); end(b, details!(if k && k { Some(blockquote!()) } else { None }, raw!({ x }), cmp1!(a = frag_match!(if idb(k) { x } else { ("\u{2028}") })), unsafe { idu(y) })) }
    h_14_g004(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<fieldset "); esc(y); lit("=\""); if k { lit("<br "); esc(y); lit("=\"1.50\""); if k { lit(" loop"); } lit(" hx-get=\""); esc(y); lit("\">"); } else if k { lit("<br q&#39;&lt;=\"\" n0=\"true  "); esc(x); lit(" "); esc(x); lit("\" :bind=\"{}\">"); } else { lit("0"); } lit("\" frag=\""); lit(if k || k { "true" } else { "false" }); lit("\">``<h4><col fn=\"x y "); if k { lit("é"); } else { lit(" "); } lit(" "); esc(x); lit(" 0123456789012345678901234567890123456789\" dyn=\"\""); if !k { lit(" "); esc(y); } lit("></h4></fieldset>"); end(b, fieldset!{idm!(y) = frag!({}, frag_match!(if S0.m(k) { br!{idm!(y) = "1.50", r#loop = bool!((|| k)()), "hx-get" = ({ let q = y; q })} } else if (k) { br!{"q'<" = classes!(), NM[0] = classes!{1 < 2, classes!(), core::convert::identity::<&str>(x), ("other", x).1}, ":bind" = loop { break "{}" }} } else { 0 })), frag!("", concat!("``", "")), frag = (k || k), h4![col!{r#fn = classes!("x y", frag_match!(if idb(k) { concat!("é", "") } else { " " }), x, loop { break "0123456789012345678901234567890123456789" },), r#dyn = {}, { let q = y; q } = bool!(!k)}]}) }
    h_14_g005(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<h3>"); if !k { lit(x); } lit("<head use=\""); esc(x); lit("\">"); if k && k { lit("<mark hx-get=\"0123456789abcdef&lt;\" é=\""); esc(x); lit(" q&quot;q 3.0\" value=\"0123456789abcdef\">"); esc(y); lit("</mark>"); } lit("<h1>1000.0</h1><col static=\" 2 "); esc(x); lit("\" static=\""); lit(if k { "true" } else { "false" }); lit(" \"></head>{<address></address>|dflt}</h3>"); end(b, h3!(frag_match!(if k ^ true { laby::raw!(x) }), head!{if k && k { Some(mark!("hx-get" = idf("0123456789abcdef<"), "é" = classes!{if let Some(q) = Some(x) { q } else { "no" }, ({ (r#"q"q"#) }), if true { 3f32 } else { 3f32 }}, ("other", idm!(y)).1, value = { "0123456789abcdef" },)) } else { None }, r#use = core::convert::identity::<&str>(x), cmp2!(col![r#static = classes!({ let _ = 1; }, (1, 2).1, x as &str), r#static = classes![!!k, classes!()]], title = 1e3)}, cmp1!(a = address![]))) }
    h_14_g006(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<html yield=\""); lit(y); lit("\"><address yield=\"false\"></address><title"); if k { lit(" href"); } if k { lit(" del"); } lit(" blk=\""); esc(x); lit(", "); esc(x); lit("\">"); lit(if k && l { "true" } else { "false" }); lit(" &lt;!--</title></html>"); end(b, html!(address!(r#yield = !true), title!(href = bool!(S0.m(k)), classes!((k && l), ({ ("<!--") })), del = bool!((k)), { "blk" } = iter!(", ", [core::convert::identity::<&str>(x), x]), ()), r#yield = raw!(y))) }
    h_14_g007(b) { let x = t(1); let y = t(1); let v = u8_(); lit("<li del=\"["); esc(x); lit("] "); esc(y); lit("\" x:y=\""); lit_dec(v as u32); lit("\"></li>"); end(b, li!(del = classes!{format_args!("[{}]", x), ({ let q = y; q })}, "x:y" = S0.m(v),)) }
    h_14_g008(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<nav><source><source"); if !k { lit(" name"); } lit(" frag=\""); if k { esc(x); } lit("\">"); lit(if v < 10 { "true" } else { "false" }); lit("true"); esc(x); esc(x); lit("</nav>"); end(b, nav!(frag!{source!(), source![name = bool!(!k), frag = if k { Some(x) } else { None }], (matches!(v, 0..=9)), 1 < 2}, if let Some(q) = Some(x) { q } else { "no" }, x)) }
    h_14_g009(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<p "); esc(x); lit("=\""); if k { esc(y); } lit("\">"); esc(x); esc(x); lit(" <data"); if !k { lit(" "); esc(x); } lit(" x:y=\""); esc(x); lit(" "); esc(x); lit("\"></data>["); esc(y); lit("]</p>"); end(b, p!{classes!(iter!("", [(x), &x[..]]), data!{idf(x) = bool!(k ^ true), "x:y" = classes!({ let q = idf; q(x) }, Some(x)),}), format_args!("[{}]", y), S0.m(x) = if !!k { Some(y) } else { None }}) }
    h_14_g010(b) { let x = t(1); let y = t(1); lit("<rt><hr a-b> <article "); esc(x); lit("=\""); lit(y); lit("\">"); esc(y); lit("</article></rt>"); end(b, rt!{classes!(hr!(concat!("a", "-b") = bool!((true))), frag! {}), article!(y, Some(x) = raw!({ y }), {})}) }
    h_14_g011(b) { let y = t(1); lit("<select a1=\""); esc(y); lit("\"></select>"); end(b, select!{a1 = { let q = idf; q(({ let q = y; q })) }}) }
    h_14_g012(b) { let x = t(1); let y = t(1); lit("<summary><h1>"); esc(y); lit("</h1></summary>"); end(b, summary![cmp2!(None::<&str>, title = y)]) }
    h_14_g013(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<tfoot><menuitem>"); if !k {  } lit("<style></style><wbr aria-label=\""); esc(x); lit("\"></menuitem><base></tfoot>"); end(b, tfoot!{menuitem![frag_match!(if k ^ true { frag!() }), style![], wbr!{"aria-label" = core::convert::identity::<&str>(x),}], base!(),}) }
    h_14_g014(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<ul><h1><param _u=\"\""); if k && k { lit(" a1"); } lit("></h1><option data_x=\"3.0\"><hr id=\""); esc(x); lit("\">0123456789abcdef&lt;  two  </option><th><br loop=\""); if v == 0 { lit("<param "); esc(y); lit("=\""); esc(x); lit("\" 7=\""); lit_dec(v as u32); lit("\">"); } else if v < 10 { lit("<meta>"); } else { lit("many"); } lit(" "); esc(y); esc(x); lit("\" loop=\""); esc(y); lit("\"></th></ul>"); end(b, ul!(cmp2!(frag!{}, title = param![_u = None::<&str>, a1 = bool!(k && k)]), option!{data_x = 3f32, hr!(id = W0(x)), ("0123456789abcdef<"), idf("  two  ")}, th!{br!(r#loop = classes!(frag_match!(match v { 0 => param!(S0.m(y) = if let Some(q) = Some(x as &str) { q } else { "no" }, mk::SEV = { v },), 1..=9 => meta![], _ => "many" }), iter!([idm!(&y[..]), &x[..]])), r#loop = if let Some(q) = Some(y) { q } else { "no" }), x = bool!(({ (false) }))})) }
    h_14_g015(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<aside>"); if !k { if !k { lit("&lt;"); } } else if v == 7 || k { esc(x); lit("tab\t"); esc(x); lit("<track a=\"a&amp;b&lt;c&gt;d&quot;e&#39;f "); esc(y); lit("\" a1=\"\u{200b}\"><br data-id0=\""); esc(x); lit("\">"); esc(x); } else { lit("0"); } lit("</aside>"); end(b, aside!(frag_match!(if !k { frag_match!(if k ^ true { concat!("<", "") }) } else if v == 7 || k { frag!(frag!(Some(x), "tab\t", (|| W0(x))(), frag!()), track!("a" = classes!(concat!("a&b<c>d\"e'f", ""), unsafe { idu(y) }), a1 = classes![const0!("\u{200b}")]), br!((id0) = (|| x)()), frag!(x)) } else { 0 }))) }
    h_14_g016(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<button><li a&quot;b=\"<meta &lt;=\""); esc(x); lit("\" title=\""); esc(y); lit(" \r\n\">\" "); esc(x); lit("=\"q&quot;q\">"); esc(y); lit_dec(v as u32); lit("</li><script><embed "); esc(x); lit("=\"["); esc(x); lit("]\" a1=\"1.5\" @click=\"&#39;\">"); esc(x); lit("</script>  two  </button>"); end(b, button!{li![S0.m(y), "a\"b" = meta!['<' = x, title = classes!(if let Some(q) = Some(y) { q } else { "no" }, ({ ("\r\n") }))], Some(x) = frag!(frag! {}, r#"q"q"#), S0.m(v)], script!(embed![{ let q = x; q } = format_args!("[{}]", x), a1 = 1.5, "@click" = { "'" }], [x, "other"][0], { "0"; }), ("  two  ")}) }
    h_14_g017(b) { let x = t(1); let y = t(1); lit("<datalist Value=\""); esc(x); lit("\"><th t1=\"  two  \" "); esc(y); lit("=\"255\" "); esc(x); lit("=\""); esc(y); lit("\"><datalist>"); lit(x); lit("</datalist></th></datalist>"); end(b, datalist!(th![datalist!(laby::raw!(x)), t1 = "  two  ", { y } = 0xff, Some(x) = String::from(y)], Value = String::from(x))) }
    h_14_g018(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<dl value><hgroup>\u{7f}"); lit(if k || l { "true" } else { "false" }); esc(y); lit("</hgroup><noscript>"); esc(y); lit("abc<col frag=\"1.50 "); if k { esc(x); } else { esc(x); esc(y); } lit("\""); if k && l { lit(" name"); } lit(" dyn=\"``\"></noscript>"); esc(x); lit("</dl>"); end(b, dl!{value = bool!(true), hgroup!{frag!(if true { "\u{7f}" } else { "\u{7f}" }, frag! {}, (k || l), y)}, noscript!(frag!(y, match 0 { _ => "abc" }), col!{frag = classes!(const0!("1.50"), frag_match!(if S0.m(k) { frag![{ let q = idf; q(x) }] } else { iter!([*&x, idf(y)]) })), name = bool!(k && l), r#dyn = match 0 { _ => "``" }}), S0.m(x)}) }
    h_14_g019(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<form bool=\""); if v == 7 || k { esc(x); } lit("\"><sub id>"); esc(y); lit("&lt;"); lit_dec(v as u32); lit("</sub></form>"); end(b, form!(bool = if v == 7 || k { Some(x) } else { None }, sub!(id = bool!(true), loop { break (y) }, "<", frag!(S0.m(v), ())))) }
    h_14_g020(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<head>"); if v < 10 { esc(y); } else { esc(x); } lit("<tr onclick=\""); if k { esc(x); } lit("\"><br ref=\" "); esc(x); lit(" "); esc(x); lit(" "); esc(x); lit("\" frag=\""); lit_dec(v as u32); lit("\">9</tr>"); if k { esc(x); } else { esc(y); } lit("<link t1 lang=\"  &gt; "); if k { esc(x); } lit("\" lang=\""); esc(y); lit("\"></head>"); end(b, head!{if matches!(v, 0..=9) { y } else { x }, tr!(br!(r#ref = classes!(frag!(frag!()), &x[..], *&x, (|| x)()), frag = v as u32), onclick = if (|| k)() { Some(x) } else { None }, 9u8), frag!{match k { true => x, false => y }, link!{t1 = bool!({ true }), lang = classes!{({ (" ") }), match 0 { _ => ">" }, if (|| k)() { Some(x) } else { None }}, lang = idf(y)}}}) }
    h_14_g021(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<kbd><style onclick=\"<track "); esc(y); lit("=\""); esc(y); lit("\">\"><section>"); esc(y); if k { esc(x); } else { esc(x); } lit("</section><b "); esc(x); lit("=\"\"><source "); esc(x); lit("=\""); lit_dec(v as u32); lit(" "); esc(y); lit(" &#39;\">"); lit_dec(v as u32); lit("<br "); esc(x); lit("=\""); esc(x); lit("\""); if k { lit(" blk"); } lit("></b>"); esc(x); esc(x); lit("<rb>"); esc(y); lit("<img Value=\"6\""); if k { lit(" f0"); } lit(">"); esc(x); lit("  "); esc(x); lit(" -</rb></style><code>\r</code></kbd>"); end(b, kbd!{style!(onclick = track![{ y } = y], section!{iter!([y, ("other", match k { true => x, false => x }).1])}, b!(source![idm!(x) = classes!(S0.m(v), y as &str, '\'')], v as u32, br!((x, 1).0 = classes!(x), { "blk" } = bool!(!!k)), idf(x) = {}), frag!(&x[..], idf(x)), rb!{frag!({ let _ = 1; }, String::from(y),), img!(Value = { 5; 6 }, S0.f = bool!((|| k)())), classes!(x, frag!(), 'q: { break 'q (x) }, "-")},), frag!(code!{{ "\r" }})}) }
    h_14_g022(b) { let x = t(1); let y = t(1); lit("<menu "); esc(y); lit("=\"\" _u=\""); esc(y); esc(x); esc(y); lit("\">"); lit(x); lit("<style "); esc(x); lit("=\""); esc(y); lit("\" p=\""); lit(x); lit("\" a=\"\">"); lit(y); lit("</style>3<small><input>\u{b}</small></menu>"); end(b, menu!(S0.m(y) = { (); }, raw!(x), Some(style!{idf(x) = y, p = laby::raw!(x), raw!({ y }), "a" = ""}), _u = frag!(y, { let q = idf; q(x) }, loop { break (y) }), classes!([1, 2, 3].len()), small![input!(), loop { break "\u{b}" },],)) }
    h_14_g023(b) { let v = u8_(); let k = bool_(); let l = bool_(); lit("<optgroup"); if !k { lit(" blk"); } lit(" f0=\""); lit_dec(v as u32); lit("\" x=\"\"><param><tr>7</tr></optgroup>"); end(b, optgroup!(param!(), { "blk" } = bool!(k ^ true), core::iter::once(tr!(K7)).next(), S0.f = { v }, x = frag!{})) }
    h_14_g024(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<q onclick=\""); lit(y); esc(y); lit("\">"); if k || l { esc(y); } else { lit("<input Value>"); } lit("{"); lit_dec(v as u32); lit("|<area Value=\"-\" "); esc(x); lit("=\""); if k { esc(x); } else { esc(x); } lit("\">}</q>"); end(b, q!(frag_match!(if k || l { idf(y) } else { input![Value = bool!({ true })] }), cmp1!(b = area![Value = ({ ("-") }), idm!(x) = if idb(k) { x } else { x }], a = { v }), onclick = frag![raw!({ y }), idf(y)])) }
    h_14_g025(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<samp><rt"); if k { lit(" v-on:a.b"); } lit(">"); esc(x); lit("</rt>   <input><header :bind=\"it&#39;s\"><track async=\""); esc(y); lit("\" q&#39;&lt;=\"\""); if k { lit(" in"); } lit("></header></samp>"); end(b, samp!(classes!(rt!("v-on:a.b" = bool!((k)), frag![[core::convert::identity::<&str>(x), "other"][0]]), "", frag!(), frag![input!(), { (); }]), header!(track!(r#async = Some(y).unwrap(), "q'<" = { "UP"; }, r#in = bool!((k))), frag!(), ":bind" = "it's"))) }
    h_14_g026(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<strong>"); if k && l { lit("<html name=\""); esc(x); lit("\" :bind=\"true\"></html>"); } lit("</strong>"); end(b, strong!{if k && l { Some(html!(name = classes!(x), ":bind" = 1 < 2)) } else { None }}) }
    h_14_g027(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<td async=\"3\""); if k { lit(" style"); } lit("><u hx-get=\"["); esc(y); lit("]\" match=\""); if k { esc(y); } else { esc(x); } lit("\"></u><input></td>"); end(b, td![r#async = [1, 2, 3].len(), u!("hx-get" = format_args!("[{}]", y), r#match = match k { true => y, false => x }), style = bool!(!!k), input!()]) }
    h_14_g028(b) { let x = t(1); let k = bool_(); lit("<title"); if k { lit(" del"); } lit("><tfoot>\u{a0} "); esc(x); lit(" "); esc(x); if k { esc(x); } else { esc(x); } lit("</tfoot></title>"); end(b, title!(del = bool!((|| k)()), tfoot!(classes!(const0!("\u{a0}"), idm!(x), P0 { a: "other", b: x }.b), match k { true => x, false => x }))) }
    h_14_g029(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<abbr"); if k { lit(" "); esc(x); } lit(" a&quot;b><base wrap=\""); lit(if k { "true" } else { "false" }); lit(" "); lit_dec(v as u32); lit(" "); esc(x); lit("\" "); esc(y); lit("=\"a&lt;b \"><menu div=\"\\\"><base"); if k || k { lit(" title"); } lit(" static=\"\""); if k { lit(" "); esc(y); } lit("></menu></abbr>"); end(b, abbr!([x][0] = bool!({ k }), base!((("wrap")) = classes!(k, { v }, ({ let q = x; q }),), Some(y) = classes!{idf("a<b"), ""},), "a\"b" = bool!({ true }), menu!(base!(title = bool!(k || k), r#static = classes!{}, { { y } } = bool!(k)), div = concat!("\\", "")))) }
    h_14_g030(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<bdo><hr frag=\"\" t1=\""); if k { esc(x); } lit("\"><img n0=\""); lit(if k { "true" } else { "false" }); lit("\"><br><col><bdo>"); lit_dec(v as u32); lit("</bdo></bdo>"); end(b, bdo!(frag!{hr!(frag = classes!{}, t1 = if (k) { Some(x) } else { None }), img!(NM[0] = S0.m(k)), br!(), col!()}, bdo!(v as u32))) }
    h_14_g031(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<code "); esc(y); lit("=\"["); esc(y); lit("]\"><q "); esc(x); lit("=\""); lit(if k { "true" } else { "false" }); lit("\"><ins>"); if v == 0 {  } else if v < 10 { lit("&lt;"); } else { lit("many"); } esc(x); lit("<embed "); esc(x); lit("=\""); lit(if !k { "true" } else { "false" }); lit("\""); if k || k { lit(" "); esc(x); } lit(">"); esc(x); lit("</ins></q></code>"); end(b, code!{q![idm!(x) = S0.m(k), ins!(frag_match!(match v { 0 => classes![], 1..=9 => '<', _ => "many" }), ({ let q = x; q }), embed!({ let q = x; q } = (k ^ true), idf(x) = bool!(k || k)), classes!{'q: { break 'q x }})], [y][0] = format_args!("[{}]", y)}) }
    h_14_g032(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<dfn frag=\""); esc(y); lit("\" title=\""); esc(x); lit("\"><embed "); esc(y); lit("=\""); esc(x); lit("\" "); esc(x); lit("=\""); if k { lit("<hr x:y=\""); esc(y); lit("\" _u=\""); if k { lit_dec(v as u32); } else { esc(x); esc(x); } lit(" "); if k { esc(x); } lit("\" onclick=\""); esc(x); lit("\">"); } else if k || k { lit("<track buffer=\"97\" f0=\"0123456789abcdef\">"); } else { lit("0"); } lit("\" for=\""); lit_dec(v as u32); lit("\"><bdo>2"); lit(if k { "true" } else { "false" }); lit("true<param data-x=\""); esc(y); lit("\"></bdo></dfn>"); end(b, dfn!(frag = y, embed!([y][0] = x, { let q = x; q } = frag_match!(if (k) { hr!("x:y" = y, _u = classes!(frag_match!(if k { v as u32 } else { frag!{if let Some(q) = Some(x) { q } else { "no" }, x} }), if !!k { Some(x) } else { None }), onclick = x) } else if k || k { track!(buffer = 'a' as u32, S0.f = ({ ("0123456789abcdef") })) } else { 0 }), r#for = v), title = x, bdo![frag!((1, 2).1, ()), frag!{(k), {}, { true }}, param!("data-x" = (move |q: &'static str| q)(y),)])) }
    h_14_g033(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<figcaption name=\""); if k { esc(y); } else { esc(y); } lit("\" title=\"\"><td>"); lit_dec(v as u32); lit("</td></figcaption>"); end(b, figcaption!{name = match k { true => 'q: { break 'q y }, false => y }, td!(v), title = classes!(),}) }
    h_14_g034(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<h4><select "); esc(x); lit("=\""); lit_dec(v as u32); lit("\">"); esc(x); if v == 0 { esc(x); esc(x); lit(", "); esc(y); } else if v < 10 { lit_dec(v as u32); esc(x); } else { lit("many"); } lit("</select><th><track "); esc(y); lit("=\"0 "); lit(y); lit("\""); if !k { lit(" data-x"); } lit("><input "); esc(x); lit("=\""); esc(x); lit(" "); lit(if k { "true" } else { "false" }); lit(" "); if k { esc(x); } lit("\" @click=\""); esc(x); lit("\"></th></h4>"); end(b, h4!{select!(x, frag_match!(match v { 0 => frag![x, classes!(), iter!(", ", [unsafe { idu(x) }, { y }])], 1..=9 => frag!(v, String::from(&x[..])), _ => "many" }), { { x } } = v as u32), th!(track!(idm!(y) = classes!{0, raw!({ y })}, "data-x" = bool!(!k)), input!({ x } = classes![x, (k), if { k } { Some(x) } else { None }], "@click" = core::convert::identity::<&str>(x)))}) }
    h_14_g035(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<i><form>"); if !k { lit("<rb id=\""); esc(x); lit("\" "); esc(y); lit("=\""); if k { esc(x); } lit("\" p=\""); esc(x); lit("\">"); esc(x); lit("true</rb>"); } lit("<optgroup>世界<track title=\""); esc(x); lit("\" data-x=\""); esc(y); lit("\">"); lit(if k && k { "true" } else { "false" }); if !k { esc(y); } else { esc(x); } lit(x); lit("</optgroup></form></i>"); end(b, i!(form!(if k ^ true { Some(rb!{id = x, x, S0.m(y) = if !!k { Some(x) } else { None }, 1 < 2, p = classes![x],}) } else { None }, optgroup!{"世界", track!(title = P0 { a: "other", b: unsafe { idu(x) } }.b, "data-x" = S0.m(y)), frag!{"", (k && k), if !k { y } else { x }, frag!()}, laby::raw!(x)}))) }
    h_14_g036(b) { let x = t(1); let y = t(1); lit("<main div=\";\" "); esc(x); lit("=\""); esc(x); lit("\">"); esc(y); lit("<section>"); esc(y); esc(x); lit("</section><th>  </th>"); esc(x); esc(x); lit(", "); esc(y); lit("12</main>"); end(b, main!(div = (";"), ("other", Some({ y })).1, cmp0!(y, String::from(x)), idm!(th!(concat!("  ", ""))), [x][0] = x as &str, frag![Some(x), frag!(iter!(", ", [idf(x), y as &str]), 12i64)])) }
    h_14_g037(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<noscript"); if k { lit(" data-id0"); } lit(" "); esc(x); lit("=\""); if k { esc(x); } lit("\"><tr "); esc(x); lit("=\""); esc(x); lit("\" é=\"97\" v-on:a.b=\""); lit(x); lit("\"><embed>"); lit(x); lit(if k { "true" } else { "false" }); lit("<col data-x=\"["); esc(x); lit("]\">"); lit_dec(v as u32); lit(" "); esc(y); lit(" </tr>"); esc(x); lit("<q><link _u=\""); esc(x); lit("\" class=\""); lit(if k || l { "true" } else { "false" }); lit("\"></q></noscript>"); end(b, noscript!((id0) = bool!(!!k), tr![embed![], { let q = x; q } = classes!(Some(x).unwrap()), raw!({ x }), "é" = 'a' as u32, frag!(S0.m(k), col!("data-x" = format_args!("[{}]", x))), "v-on:a.b" = raw!({ x }), classes!(S0.m(v), ("other", y).1, frag!{})], P0 { a: "other", b: x }.b, q!(link!(_u = x, class = (k || l))), Some(x) = frag!(if (|| k)() { Some(x) } else { None }))) }
    h_14_g038(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<picture><section><embed"); if !k { lit(" @click"); } lit(">"); lit(x); lit("</section>"); if k || k { lit("<caption use=\""); esc(x); lit(" "); esc(x); lit(" \"></caption>"); } lit("<col _u=\""); esc(y); lit(" "); esc(y); lit(" "); lit_dec(v as u32); lit("\" value=\"\">"); esc(x); lit("<"); esc(x); lit(" "); lit(if !k { "true" } else { "false" }); lit("<source "); esc(y); lit("=\""); esc(x); lit("\">"); esc(x); lit(y); lit("</picture>"); end(b, picture!{cmp0!(embed!("@click" = bool!(!k)), laby::raw!(x)), if k || k { Some(caption!{r#use = classes!(x, idm!(x), ())}) } else { None }, frag!(col![_u = classes!(y, (y), v as u32), value = classes!()], classes![iter!("<", [("other", if let Some(q) = Some(x) { q } else { "no" }).1, (x)]), !k], source!({ { y } } = x, _u = bool!((false)))), frag!([x, "other"][0], raw!(y))}) }
    h_14_g039(b) { let y = t(1); let k = bool_(); lit("<rtc "); esc(y); lit("=\"\" class=\"%\">"); if k || k { lit("<dt>``007</dt>"); } lit("</rtc>"); end(b, rtc!([y][0] = frag![], class = "%", frag_match!(if k || k { Some(dt!("``", "007")) }))) }
    h_14_g040(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<slot><h2>  </h2><h1><source data-x=\""); if k { esc(y); } lit(" &#39;\" "); esc(y); lit("=\""); esc(y); lit("\" class=\""); esc(x); lit("\"></h1><col></slot>"); end(b, slot![h2!(match 0 { _ => "  " }, frag!()), cmp2!(col!(), title = source!{"data-x" = classes![if k { Some(y) } else { None }, loop { break '\'' },], { { y } } = y, class = idm!(x)})]) }
    h_14_g041(b) { let x = t(1); let y = t(1); lit("<sup a&quot;b=\""); esc(y); lit("\">"); esc(x); lit("</sup>"); end(b, sup!{x as &str, "a\"b" = { let q = idf; q(y) }}) }
    h_14_g042(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<th class=\"-5 "); lit(if k { "true" } else { "false" }); lit("  "); esc(x); lit("\" "); esc(x); lit("=\""); esc(x); lit("\" "); esc(x); lit("=\""); esc(x); lit("\"><samp>"); esc(y); lit("</samp>"); esc(x); lit("</th>"); end(b, th!(class = classes!(-5, k, frag!(), ({ let q = x; q })), classes!(), samp!(y as &str), [x][0] = { let q = idf; q(x) }, *&x, [x][0] = Some(x).unwrap())) }
    h_14_g043(b) { let v = u8_(); let k = bool_(); lit("<var><html"); if k { lit(" as"); } lit(">"); lit_dec(v as u32); lit_dec(v as u32); lit("</html></var>"); end(b, var!(html!{S0.m(v), v, r#as = bool!({ k })})) }
    h_14_g044(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<audio"); if k { lit(" del"); } lit(">"); if !k { lit("2.0"); } else if k { esc(x); } else { lit("0"); } lit_dec(v as u32); lit("2 "); esc(y); lit("</audio>"); end(b, audio!{frag!(frag!(), frag_match!(if k ^ true { frag![2.0] } else if k { String::from(x) } else { 0 }), v as u32, None::<&str>), del = bool!((|| k)()), classes!{10 % 4, y}}) }
    h_14_g045(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<canvas match=\""); lit_dec(v as u32); lit("\" _u=\""); lit(y); lit("\">"); if v == 0 { lit_dec(v as u32); } else if v < 10 { if k { esc(x); esc(y); lit("<"); esc(x); } else if k { esc(x); } else { lit("0"); } } else { lit("many"); } lit("<ruby></ruby></canvas>"); end(b, canvas!(r#match = v, _u = raw!(y), frag_match!(match v { 0 => v as u32, 1..=9 => frag_match!(if k { frag!({ let _ = 1; }, 'q: { break 'q x }, iter!("<", [core::convert::identity::<&str>(loop { break (y) }), (x)])) } else if (|| k)() { idf(x) } else { 0 }), _ => "many" }), ruby!())) }
    h_14_g046(b) { let y = t(1); lit("<dd>"); esc(y); lit("</dd>"); end(b, dd!(core::convert::identity::<&str>(y),)) }
    h_14_g047(b) { let y = t(1); let k = bool_(); lit("<dt title=\"\" title=\""); if k { esc(y); } lit("\"></dt>"); end(b, dt!{title = frag![], title = if { k } { Some(y) } else { None }}) }
    h_14_g048(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<h1 buffer=\"1.5\">true<img hx-get=\""); esc(y); lit("\" onclick=\""); if k { esc(y); } lit("\" "); esc(x); lit("=\"\">["); esc(x); lit("]</h1>"); end(b, h1!(1 < 2, frag![img!("hx-get" = (y), onclick = if (k) { Some(y) } else { None }, Some(x) = { 0xff; }), format_args!("[{}]", x)], buffer = 1.5)) }
    h_14_g049(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<header"); if k { lit(" v-on:a.b"); } lit(" :bind=\"1.50\"><figure "); esc(x); lit("=\""); lit(if k { "true" } else { "false" }); lit("\""); if !k { lit(" q&#39;&lt;"); } lit(">"); if k { lit("<menuitem></menuitem>"); } if k { lit("<dl "); esc(x); lit("=\"世界\">é</dl>"); } lit("<article"); if k { lit(" type"); } lit(" "); esc(x); lit("=\"\">"); esc(y); lit("<"); esc(x); lit("<source></article></figure></header>"); end(b, header!["v-on:a.b" = bool!((k)), figure!(if k { Some(menuitem!()) } else { None }, if idb(k) { Some(dl!(idm!(x) = if true { "世界" } else { "世界" }, Some(()), 'é')) } else { None }, (x, 1).0 = ({ k }), "q'<" = bool!(!k), article!(iter!("<", [core::convert::identity::<&str>(y), core::convert::identity::<&str>(x)]), source!(), r#type = bool!((|| k)()), idm!(x) = classes!())), ":bind" = loop { break "1.50" }]) }
    h_14_g050(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<label p=\""); if k { esc(y); } lit("\"><i>"); esc(x); lit(y); lit("12"); if k { esc(x); } else { esc(x); } esc(x); lit("\u{7f}</i><wbr static=\"9\"> <wbr type=\""); esc(x); lit("\"> "); lit(y); lit("<dl><source>"); lit(if k { "true" } else { "false" }); lit("-1.5<area"); if k { lit(" "); esc(x); } lit(" t1=\""); esc(x); lit("\">"); lit(if k { "true" } else { "false" }); lit("</dl></label>"); end(b, label!(i!(S0.m(x), frag![laby::raw!(y)], frag![12i64, idm!(if idb(k) { x } else { x }), x, if true { "\u{7f}" } else { "\u{7f}" }]), wbr!{r#static = 3i8.pow(2),}, classes!(frag!(), wbr!(r#type = core::convert::identity::<&str>(x)), raw!({ y })), dl!(source![], frag!(k, -1.5), area!(idm!(x) = bool!({ k }), t1 = (x)), S0.m(k)), p = frag_match!(if { k } { (|| y)() }))) }
    h_14_g051(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<menuitem x=\"<embed frag=\" a\r\nb "); if k { lit(y); lit(" "); esc(x); } else if !k {  } else { lit("0"); } lit("\" "); esc(x); lit("=\"世界\">\">"); lit(if k { "true" } else { "false" }); lit("</menuitem>"); end(b, menuitem!{x = embed!(frag = classes!({ 9u8; }, "a\r\nb", frag_match!(if S0.m(k) { classes!(raw!(y), x) } else if !k { frag!() } else { 0 }),), idf(x) = ({ ("世界") })), !!k}) }
    h_14_g052(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<option match=\" "); esc(x); lit(" "); if k { lit("<base data_x=\"\u{200b}\" n0=\""); esc(x); lit(" "); esc(x); lit("\">"); } else { lit("<meta é=\"\r\n  "); if k { esc(x); } else { esc(y); } lit(" "); esc(x); if k { esc(x); } else { esc(x); } lit("\">"); } lit(" "); if k && k { esc(x); } lit("\"></option>"); end(b, option!(r#match = classes!{(), unsafe { idu(x) }, frag_match!(if k { base!(data_x = classes!(("\u{200b}")), NM[0] = classes!{P0 { a: "other", b: x }.b, ({ let q = P0 { a: "other", b: x }.b; q })}) } else { meta!{"é" = classes!({ "\r\n" }, frag!(), if k { x } else { y }, iter!("", [("other", Some(x).unwrap()).1, core::convert::identity::<&str>(match k { true => x, false => x })]))} }), if k && k { Some(x) } else { None },})) }
    h_14_g053(b) { let x = t(1); let y = t(1); lit("<rb>{<optgroup>"); esc(x); lit("</optgroup>|dflt}<h3 class=\"e\u{301}\">{"); esc(y); lit("|<area>}<link dyn=\"true\"></h3><col true_=\""); esc(y); lit("\" 7=\"\"></rb>"); end(b, rb!(cmp1!(a = optgroup!(("other", x).1)), h3!(cmp1!(b = area!(), a = { let q = idf; q(y) }), link!(r#dyn = match 0 { _ => true }), class = loop { break "e\u{301}" }), col!{r#true_ = classes![core::convert::identity::<&str>(y)], 7 = frag!()}, { "\\"; })) }
    h_14_g054(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<script><img><source data_x=\""); esc(y); esc(y); lit("\" "); esc(y); lit("=\"["); esc(x); lit("]\">"); esc(x); lit("<video x=\"["); esc(x); lit("]\">"); if v == 0 { lit("9"); } else if v < 10 { if k { esc(x); } } else { lit("many"); } lit("é007\\"); lit(x); lit("</video></script>"); end(b, script![frag!(img!(), source![data_x = iter!("", [*&y, idf(y)]), [y][0] = format_args!("[{}]", x)]), { x }, video!(frag!{frag_match!(match v { 0 => 3i8.pow(2), 1..=9 => if S0.m(k) { Some(x) } else { None }, _ => "many" }), match 0 { _ => 'é' },}, const0!("007"), x = frag![{ (); }, format_args!("[{}]", x),], match 0 { _ => "\\" }, laby::raw!(x))]) }
    h_14_g055(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<style><ul class=\"&lt;\""); if k { lit(" x"); } lit(">"); if k { lit("<select>"); esc(y); esc(x); lit("</select>"); } lit("<input href=\"97\"></ul></style>"); end(b, style![ul!(class = loop { break '<' }, x = bool!(S0.m(k)), if !!k { Some(select!(y, x)) } else { None }, input!(href = b'a'))]) }
    h_14_g056(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<template><legend></legend>it&#39;s<small onclick=\"&gt;\">0123456789abcdef&lt;<br"); if k { lit(" hx-get"); } lit(" lang=\""); esc(y); lit("\"><col href=\""); esc(x); lit("\" as=\"false  "); esc(x); lit(" -\""); if k { lit(" a1"); } lit("></small><button>"); esc(x); lit("\u{b}</button></template>"); end(b, template!{legend!(), match 0 { _ => "it's" }, small!{onclick = ">", if true { "0123456789abcdef<" } else { "0123456789abcdef<" }, br!["hx-get" = bool!((k)), lang = classes!(idf(y))], frag!{}, col!(href = classes!(Some(x).unwrap()), r#as = classes!(false, { 12i64; }, { let q = idf; q(x) }, ({ ("-") }),), a1 = bool!({ k }))}, button!(*&x, concat!("\u{b}", ""))}) }
    h_14_g057(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<tr>"); esc(x); esc(y); lit(" <menu async=\""); if k { esc(x); } lit("\" "); esc(x); lit("=\"<img class=\""); lit(y); lit("\" x=\""); esc(x); lit("\" _u=\""); esc(y); lit("\">\"><col div=\""); if !k { esc(x); } lit("\""); if !k { lit(" "); esc(y); } lit("><input"); if k { lit(" _u"); } lit(" data-id0=\"7\"></menu>"); if k { esc(x); } else { esc(x); } lit("</tr>"); end(b, tr![x, classes!(y, menu!(r#async = if (|| k)() { Some(x) } else { None }, col!(div = if k ^ true { Some(x) } else { None }, [y][0] = bool!(!k)), idm!(x) = img!{class = raw!(y), x = x, _u = if let Some(q) = Some(y) { q } else { "no" }}, input!(_u = bool!(k), (id0) = classes!(mk::SEV)))), classes!(), match k { true => P0 { a: "other", b: x }.b, false => x }]) }
    h_14_g058(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<address><script a=\"&gt; "); esc(y); lit("\""); if !k { lit(" f0"); } lit(" match=\""); lit(y); lit("\"><hr @click=\""); esc(y); esc(x); lit("\" "); esc(x); lit("=\""); esc(x); lit("\">&amp;#39;</script><i>/&gt;</i>"); esc(x); lit("</address>"); end(b, address!{script!(hr!("@click" = iter!([(move |q: &'static str| q)({ y }), &x[..]]), { let q = x; q } = (x)), "a" = classes!(concat!(">", ""), (move |q: &'static str| q)({ let q = idf; q(y) })), idf("&#39;"), S0.f = bool!(!k), r#match = raw!({ y })), i!(classes!("",), { "/>" }), idm!(x)}) }
    h_14_g059(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<blockquote><dl><track v-on:a.b=\"\""); if v == 7 || k { lit(" use"); } if k { lit(" title"); } lit("><figcaption div=\""); esc(y); lit("\">"); lit(if k { "true" } else { "false" }); lit("世界0"); esc(x); lit(", "); esc(x); lit("<wbr></figcaption><area><input>"); if !k { lit("<area>"); } else if k || k { lit("<img type=\""); esc(x); lit("\">"); } else { lit("0"); } lit("</dl></blockquote>"); end(b, blockquote!{dl!{frag!{track!("v-on:a.b" = classes!{}, r#use = bool!(v == 7 || k), title = bool!((k))), classes!()}, figcaption!{frag!(((|| k)()), idf("世界"), ({ (0) }), iter!(", ", [x, idf(S0.m(x))])), frag!(), wbr!(), match 0 { _ => "" }, div = classes!(&y[..])}, frag!(area![], input!()), frag_match!(if !k { area!() } else if k || k { img!{r#type = x} } else { 0 })}}) }
    h_14_g060(b) { let x = t(1); let k = bool_(); let l = bool_(); lit("<colgroup "); esc(x); lit("=\""); lit(x); lit("\"><ruby n0=\""); lit(x); lit("\""); if k || l { lit(" match"); } lit("></ruby>&amp;</colgroup>"); end(b, colgroup!{ruby!(NM[0] = raw!({ x }), r#match = bool!(k || l)), ({ ("&") }), S0.m(x) = laby::raw!(x)}) }
    h_14_g061(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<dialog bool=\""); if v == 7 || k { esc(y); } else { esc(y); } lit("\">"); if k { lit("<wbr é=\""); if k { esc(y); } else { esc(y); } lit(" "); esc(x); lit("\">"); } else if k { esc(y); } else { lit("0"); } lit("</dialog>"); end(b, dialog!{frag_match!(if !!k { wbr!["é" = classes!(match k { true => y, false => y }, x)] } else if (|| k)() { Some(y).unwrap() } else { 0 }), bool = if v == 7 || k { y } else { y }}) }
    h_14_g062(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<figure><embed frag=\"true\" é=\"3.0\""); if k { lit(" "); esc(x); } lit(">"); esc(x); lit("</figure>"); end(b, figure!(embed!{frag = true, "é" = 3f32, { let q = x; q } = bool!(S0.m(k))}, (|| x)())) }
    h_14_g063(b) { let x = t(1); let k = bool_(); lit("<h5 aria-label=\"["); esc(x); lit("]\""); if k { lit(" "); esc(x); } lit("></h5>"); end(b, h5!("aria-label" = format_args!("[{}]", x), frag!(frag!(frag!()), frag! {}), idm!(x) = bool!(k), { x } = bool!((false)))) }
    h_14_g064(b) { let y = t(1); let v = u8_(); let k = bool_(); lit("<iframe>"); lit_dec(v as u32); lit("<h3"); if k || k { lit(" "); esc(y); } lit(">6<param></h3>"); esc(y); lit("</iframe>"); end(b, iframe!(v, h3!({ 5; 6 }, idf(y) = bool!(k || k), param!()), (y))) }
    h_14_g065(b) { let x = t(1); let y = t(1); lit("<map>"); esc(x); lit("7 <section>"); esc(y); lit("\0"); lit(x); lit("["); esc(x); lit("]</section> "); esc(x); lit("<"); esc(y); lit("</map>"); end(b, map!{x, classes!{frag![frag!(), mk::SEV,], section!(String::from(y), "\0", raw!({ x }), format_args!("[{}]", x)), iter!("<", [P0 { a: "other", b: x }.b, y])}}) }
    h_14_g066(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<object x=\""); esc(x); lit("\" a1=\"\" "); esc(y); lit("=\"7\">"); if k { lit("<script></script>"); } lit("</object>"); end(b, object!(x = core::convert::identity::<&str>(x), if (|| k)() { Some(script!()) } else { None }, a1 = frag!(), idf(y) = mk::SEV,)) }
    h_14_g067(b) { let x = t(1); let v = u8_(); lit("<pre "); esc(x); lit("=\""); esc(x); lit("\" in=\"#\" "); esc(x); lit("=\""); lit_dec(v as u32); lit("\"></pre>"); end(b, pre!({ let q = x; q } = classes!(S0.m(x),), r#in = concat!("#", ""), S0.m(x) = S0.m(v))) }
    h_14_g068(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<ruby><base data-x=\""); if v == 7 || k { if k { esc(x); } esc(y); } else if k && k { lit("<area "); esc(x); lit("=\""); esc(x); lit("\">"); } else { lit("0"); } lit("\" name=\"q&quot;q\" "); esc(x); lit("=\"\"></ruby>"); end(b, ruby!(base!("data-x" = frag![{ let _ = 1; }, frag_match!(if v == 7 || k { frag!(if idb(k) { Some(x) } else { None }, (y)) } else if k && k { area!{idf(x) = P0 { a: "other", b: x }.b} } else { 0 })], name = ({ (r#"q"q"#) }), idm!(x) = { '\''; },),)) }
    h_14_g069(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<small .prop=\"<img"); if !k { lit(" "); esc(x); } lit(" id=\""); if k { esc(x); } lit("\" data_x=\""); esc(x); lit("\">\" name=\""); esc(y); lit("\"><datalist><link "); esc(y); lit("=\""); esc(x); lit("\"><img"); if k { lit(" "); esc(x); } lit(" del=\"- "); lit(x); lit("\"></datalist>2"); if k { lit("0123456789012345678901234567890123456789"); } lit("<dt>"); esc(x); lit("</dt></small>"); end(b, small!{frag![datalist!(link!(idm!(y) = S0.m(x)), img!((x, 1).0 = bool!(idb(k)), del = classes!(match 0 { _ => "-" }, laby::raw!(x)))), 10 % 4,], ".prop" = img!([x][0] = bool!(!k), id = if k { Some(x) } else { None }, data_x = *&x), frag!{frag_match!(if k { "0123456789012345678901234567890123456789" }), dt!(&x[..])}, name = y}) }
    h_14_g070(b) { let x = t(1); let y = t(1); let v = u8_(); lit("<table data-x=\"say &quot;hi&quot;\" value=\"\u{200b}\" x:y=\"%\"><input "); esc(x); lit("=\"say &quot;hi&quot;\" aria-label=\"\u{a0}\"><wbr a1=\"a\" "); esc(y); lit("=\""); lit_dec(v as u32); lit("\"></table>"); end(b, table!["data-x" = frag!(loop { break "say \"hi\"" }), input![{ x } = "say \"hi\"", "aria-label" = "\u{a0}"], value = { "\u{200b}" }, wbr![a1 = "a", frag = bool!((false)), { { y } } = v], "x:y" = const0!("%")]) }
    h_14_g071(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<thead><tfoot"); if k { lit(" "); esc(y); } lit(">"); if v == 7 || k { esc(x); } if k || k { lit("<br "); esc(x); lit(">"); } lit("</tfoot>"); if k && k { lit("<bdi>"); if k { esc(y); } lit("\u{1b}</bdi>"); } lit("<dl v-on:a.b=\"3\">"); esc(y); lit("<base> "); esc(x); esc(x); lit("</dl></thead>"); end(b, thead![tfoot![if v == 7 || k { Some(x) } else { None }, idm!(y) = bool!(k), frag_match!(if k || k { br!([x][0] = bool!({ true })) })], if k && k { Some(bdi!(if !!k { Some(y) } else { None }, { "\u{1b}" })) } else { None }, { dl![y, base!{}, "v-on:a.b" = 1 + 2, classes!["", x,], x] }]) }
    h_14_g072(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<video"); if k { lit(" yield"); } lit(" "); esc(x); lit("=\""); esc(y); lit("\" lang=\""); esc(y); lit("\">"); lit(x); lit("</video>"); end(b, video!{r#yield = bool!({ k }), idm!(x) = P0 { a: "other", b: y }.b, raw!(x), lang = y}) }
    h_14_g073(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<b "); esc(y); lit("=\"\"><u "); esc(x); lit("=\""); if k { esc(y); } else { esc(x); } esc(y); lit("\""); if k { lit(" s"); } lit(">"); esc(x); lit(if k { "true" } else { "false" }); lit("</u>"); lit_dec(v as u32); lit(" "); esc(y); lit("<"); esc(y); lit("</b>"); end(b, b![idm!(y) = (), u!(idm!(x) = iter!([if idb(k) { y } else { x }, unsafe { idu(y) }]), Some(x), S0.m(k), S0.m("s") = bool!((k))), frag!(classes!(S0.m(v), iter!("<", [loop { break (y) }, { let q = idf; q(y) }])), {})]) }
    h_14_g074(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<caption>\u{ffff}<option>{};</option><h3>&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;<source "); esc(y); lit("=\""); if k { esc(x); } lit(" 28\"></h3>"); if v == 0 { lit("<track frag=\""); esc(x); lit("<"); esc(x); lit("\" "); esc(x); lit("=\""); esc(x); lit("\" aria-label=\""); lit(y); lit("\">"); } else if v < 10 { lit("<source lang=\""); esc(x); lit(" "); lit(y); lit(" &amp;\" aria-label=\"0123456789012345678901234567890123456789\">"); } else { lit("many"); } lit("</caption>"); end(b, caption!{({ ("\u{ffff}") }), idf(option!{loop { break "{}" }, (";")}), h3!["<<<<<<<<<<<<<<<<", { "<!--"; }, source!({ y } = classes!{if k { Some(x) } else { None }, 7u32 << 2}, onclick = bool!((false)))], frag_match!(match v { 0 => track!(frag = iter!("<", [unsafe { idu(("other", x).1) }, Some(x).unwrap()]), S0.m(x) = P0 { a: "other", b: x }.b, "aria-label" = raw!(y)), 1..=9 => source!(lang = classes!(idm!(x), laby::raw!(y), match 0 { _ => "&" }), "aria-label" = "0123456789012345678901234567890123456789"), _ => "many" })}) }
    h_14_g075(b) { lit("<del x:y=\"&lt;\"></del>"); end(b, del!("x:y" = if true { "<" } else { "<" })) }
    h_14_g076(b) { let x = t(1); let k = bool_(); let l = bool_(); lit("<em"); if k { lit(" "); esc(x); } lit("><table></table></em>"); end(b, em!({ let q = x; q } = bool!(k), table!())) }
    h_14_g077(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<h2>"); if k { lit("<tbody>\u{1f600}</tbody>"); } lit("<rp><optgroup aria-label=\"\">"); esc(x); lit("</optgroup>"); if v == 0 { lit_dec(v as u32); } else if v < 10 { if !k { esc(x); } esc(x); esc(x); lit_dec(v as u32); } else { lit("many"); } lit("<object>&lt;"); esc(x); lit("</object></rp></h2>"); end(b, h2!(if !!k { Some(tbody!(if true { "\u{1f600}" } else { "\u{1f600}" })) } else { None }, rp!(optgroup!("aria-label" = { (); }, Some(x).unwrap()), frag_match!(match v { 0 => S0.m(v), 1..=9 => frag![if k ^ true { Some(x) } else { None }, iter!([core::convert::identity::<&str>(*&x), ("other", x).1]), S0.m(v),], _ => "many" }), object!(({ ("<") }), x),))) }
    h_14_g078(b) { let x = t(1); let y = t(1); let v = u8_(); lit("<hgroup>"); lit_dec(v as u32); lit("0 "); esc(y); lit("</hgroup>"); end(b, hgroup!{S0.m(v), classes!(-0, 'q: { break 'q y })}) }
    h_14_g079(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<legend "); esc(x); lit("=\""); if k || l { esc(x); } lit("\" "); esc(x); lit("=\"255\">"); if k {  } else if k { lit("<wbr loop=\""); lit(x); lit("\" "); esc(y); lit("=\""); esc(x); lit(", "); esc(x); lit("\">"); } else { lit("0"); } lit("</legend>"); end(b, legend![idm!(x) = if k || l { Some(x) } else { None }, frag_match!(if S0.m(k) { { "\r\n"; } } else if !!k { wbr!(r#loop = raw!(x), Some(y) = bool!({ false }), S0.m(y) = iter!(", ", [unsafe { idu(x) }, idm!(x)])) } else { 0 }), S0.m(x) = u8::MAX]) }
    h_14_g080(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<meter><area hx-get=\"&amp;#39;\" value=\""); if k || k { esc(y); } lit("\" .prop=\"0\">"); lit(x); lit(" "); esc(x); lit(", "); if v < 10 { esc(x); } else { esc(y); } lit(" "); lit_dec(v as u32); lit("</meter>"); end(b, meter!(area!{"hx-get" = { "&#39;" }, value = if k || k { Some(y) } else { None }, ".prop" = { 0 }}, classes!(laby::raw!(x), iter!(", ", [unsafe { idu(x) }, if matches!(v, 0..=9) { x } else { y }]), S0.m(v)))) }
    h_14_g081(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<output"); if k || k { lit(" lang"); } lit(" static=\"; "); if k { lit("<base name=\""); lit_dec(v as u32); lit("\" "); esc(x); lit("=\"6\" onclick=\""); esc(y); lit("\">"); } else if k || l {  } else { lit("0"); } lit("\">"); esc(x); esc(y); lit("</output>"); end(b, output!(&x[..], lang = bool!(k || k), r#static = classes!({ ";" }, frag_match!(if (|| k)() { base![name = v as u32, { x } = classes!({ 5; 6 }), onclick = (y)] } else if k || l { classes!{} } else { 0 })), Some(y).unwrap())) }
    h_14_g082(b) { let v = u8_(); let k = bool_(); let l = bool_(); lit("<rp in=\"#\" a1=\""); lit_dec(v as u32); lit("\"><input div=\""); lit(if !k { "true" } else { "false" }); lit("\"></rp>"); end(b, rp!(r#in = "#", input!(div = (k ^ true)), a1 = v as u32)) }
    h_14_g083(b) { let x = t(1); let v = u8_(); lit("<section><param "); esc(x); lit("=\""); esc(x); lit("\" onclick=\""); esc(x); lit("\" a1=\""); lit_dec(v as u32); lit("\"></section>"); end(b, section!{param!(Some(x) = core::convert::identity::<&str>(x), onclick = { x }, a1 = v as u32)}) }
    h_14_g084(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<sub hx-get=\"\">"); if !k {  } else { lit("<source q=\""); esc(x); lit("\""); if k || k { lit(" v-on:a.b"); } lit(">"); } lit("<caption>"); esc(x); lit("</caption></sub>"); end(b, sub!("hx-get" = { (); }, frag_match!(if !k { frag!() } else { source!(nm("q") = x, "v-on:a.b" = bool!(k || k)) }), caption!((x)))) }
    h_14_g085(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<textarea><textarea><aside><input del=\""); if k && k { esc(y); } lit("\" "); esc(x); lit("=\""); if k || l { esc(x); } lit("\"><col "); esc(x); lit("=\""); lit(y); lit("\" @click=\""); esc(x); lit("\"></aside><dd>"); esc(y); lit("<track div=\""); esc(x); lit(", "); esc(x); lit("\"></dd></textarea></textarea>"); end(b, textarea!{textarea!(aside!(input![del = if k && k { Some(y) } else { None }, Some(x) = if k || l { Some(x) } else { None }], col!{Some(x) = laby::raw!(y), "@click" = x}), dd![unsafe { idu({ let q = idf; q(if let Some(q) = Some(y) { q } else { "no" }) }) }, track!{div = iter!(", ", [x, unsafe { idu(x) }])}])}) }
    h_14_g086(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<u><del>"); if k { esc(y); } lit("<source"); if !k { lit(" "); esc(x); } lit(">7"); lit_dec(v as u32); lit("</del></u>"); end(b, u!(del![frag_match!(if S0.m(k) { ({ let q = [y, "other"][0]; q }) }), source!(Some(x) = bool!(k ^ true)), K7, S0.m(v)])) }
    h_14_g087(b) { let x = t(1); let y = t(1); let k = bool_(); lit("<article><fieldset "); esc(y); lit("=\"0123456789abcdef&lt;\" lang=\"&lt;\">"); esc(x); lit(" "); if !k { esc(x); } else { esc(x); } lit(" "); esc(x); lit("</fieldset></article>"); end(b, article![laby::fieldset!(classes!(x, if !k { x } else { x }, 'q: { break 'q x }), S0.m(y) = { "0123456789abcdef<" }, lang = '<')]) }
    h_14_g088(b) { let x = t(1); let y = t(1); lit("<body><sub x=\""); lit(y); lit("\">6<base data-id0=\""); esc(y); lit("\" onclick=\"&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;&lt;\"></sub>{<area>|dflt}1.50</body>"); end(b, body!(sub!({ 5; 6 }, x = classes!(raw!({ y })), base!{(id0) = String::from(y), onclick = "<<<<<<<<<<<<<<<<"}), cmp1!(a = area![]), "1.50",)) }
    h_14_g089(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<data"); if k { lit(" in"); } lit(" @click=\""); esc(x); lit(" ["); esc(x); lit("]\"><mark><meta>"); if k { lit("<li a-b=\"a&amp;b&lt;c&gt;d&quot;e&#39;f a  "); if v > 99 { esc(x); } lit("\" a-b=\"true\">"); lit(if k { "true" } else { "false" }); lit("</li>"); } lit("</mark><article></article>"); esc(x); if k { lit("<section>c</section>"); } lit("</data>"); end(b, data!(r#in = bool!({ k }), mark!{classes!(meta!()), if !!k { Some(li!(concat!("a", "-b") = classes!({ "a&b<c>d\"e'f" }, const0!("a"), (), if v > 99 { Some(x) } else { None }), idb(k), concat!("a", "-b") = 1 < 2)) } else { None }}, W0(article!()), "@click" = classes![x, format_args!("[{}]", x)], x, frag_match!(if { k } { cmp0!(classes!['c'], frag!()) }))) }
    h_14_g090(b) { let x = t(1); lit("<div lang=\""); esc(x); lit("\"><blockquote>&#39;"); esc(x); lit("</blockquote></div>"); end(b, div!{core::iter::once(blockquote!('\'', { x })).next(), lang = x}) }
    h_14_g091(b) { let x = t(1); lit("<footer "); esc(x); lit("=\"\\\" "); esc(x); lit("=\"\u{1f468}\u{200d}\u{1f469}\"><span>  two  "); esc(x); lit("</span><i buffer buffer=\""); esc(x); lit("<"); esc(x); lit("\"></i></footer>"); end(b, footer!{S0.m(x) = if true { "\\" } else { "\\" }, span!("  two  ", x,), { x } = { "\u{1f468}\u{200d}\u{1f469}" }, i!(buffer = bool!(true), buffer = iter!("<", [([x, "other"][0]), (x)]))}) }
    h_14_g092(b) { let v = u8_(); let k = bool_(); lit("<h6"); if k { lit(" x:y"); } lit(" title=\""); lit(if k { "true" } else { "false" }); lit("\"><dt>"); if v == 0 { lit("<source>"); } else if v < 10 { lit("long text that goes on and on &amp; on, past thirty two bytes &lt;i&gt;"); } else { lit("many"); } lit("q&quot;q</dt>"); lit_dec(v as u32); lit("</h6>"); end(b, h6!{"x:y" = bool!(k), S0.m(dt!(frag_match!(match v { 0 => source!(), 1..=9 => idf("long text that goes on and on & on, past thirty two bytes <i>"), _ => "many" }), match 0 { _ => r#"q"q"# })), { v }, title = S0.m(k)}) }
    h_14_g093(b) { let x = t(1); lit("<ins t1=\" \u{ffff} &amp;amp;\" x=\""); esc(x); lit("\">"); esc(x); lit("<caption></caption></ins>"); end(b, ins!(frag!{{ let q = idf; q(x) }, caption!{}}, t1 = classes!("", loop { break "\u{ffff}" }, ("&amp;")), x = if let Some(q) = Some(x) { q } else { "no" })) }
    h_14_g094(b) { let x = t(1); let y = t(1); let v = u8_(); lit("<mark><html>"); lit_dec(v as u32); lit("255["); esc(y); lit("]</html><h2></h2>["); esc(x); lit("]</mark>"); end(b, mark!{html!(frag!["", v, u8::MAX, format_args!("[{}]", y)]), h2!(), format_args!("[{}]", x)}) }
    h_14_g095(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<ol"); if k { lit(" aria-label"); } if !k { lit(" frag"); } lit(">"); esc(x); lit("<dt t1=\"q&quot;q\""); if !k { lit(" x"); } lit("><embed del=\""); esc(x); lit("\"></dt>a&lt;b</ol>"); end(b, ol!{S0.m(x) = bool!(false), "aria-label" = bool!(k), idm!(x), dt!(t1 = { r#"q"q"# }, embed![del = (|| x as &str)()], x = bool!(k ^ true)), frag = bool!(!k), const0!("a<b")}) }
    h_14_g096(b) { let x = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<progress><var style=\""); if k { lit("<meta "); esc(x); lit("=\"c\""); if !k { lit(" style"); } lit(">"); } else { lit("tab\t"); } lit("\""); if k { lit(" n0"); } lit(" x:y=\""); esc(x); lit("\">12"); esc(x); esc(x); lit("</var>"); esc(x); lit("<cite>"); esc(x); lit("</cite></progress>"); end(b, progress!(var!(match 0 { _ => 12i64 }, Some(x).unwrap(), style = frag_match!(if k { meta!(idf(x) = 'c', style = bool!(k ^ true),) } else { ("tab\t") }), NM[0] = bool!({ k }), core::convert::identity::<&str>(x), "x:y" = ({ let q = x; q })), idm!(x), cite!{[x, "other"][0]})) }
    h_14_g097(b) { let y = t(1); lit("<s><link match=\"{}\" "); esc(y); lit("=\"["); esc(y); lit("]\" p=\"=\"><menuitem></menuitem></s>"); end(b, s!(link!(r#match = "{}", { let q = y; q } = format_args!("[{}]", y), p = if true { "=" } else { "=" }), idm!(menuitem!()))) }
    h_14_g098(b) { let x = t(1); let y = t(1); lit("<span class=\"&amp;amp;\" value=\" \"><input div=\"data-x\" dyn=\"\"><template "); esc(x); lit("=\""); esc(y); lit("\"><area></template>"); lit(x); lit("</span>"); end(b, span!(input!{div = loop { break "data-x" }, r#dyn = classes!({ let _ = 1; })}, class = ("&amp;"), template!({ let q = x; q } = y, area!(),), raw!(x), value = { " " },)) }
    h_14_g099(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<tbody>"); lit(x); esc(x); esc(x); lit("["); esc(x); lit("]6<data "); esc(x); lit("=\""); esc(y); esc(x); lit("\" frag=\""); if !k { esc(x); } else { esc(y); } lit("<"); esc(x); lit("\" "); esc(x); lit("=\""); esc(x); lit("\"><bdo>"); lit_dec(v as u32); lit("\u{1}</bdo><picture async=\"data-x\"><img .prop=\""); lit(if k { "true" } else { "false" }); lit("\" href=\""); esc(y); lit("\">"); esc(x); lit("</picture></data>"); esc(x); lit("</tbody>"); end(b, tbody!(frag!(laby::raw!(x), ({ let q = x; q }), x, format_args!("[{}]", x)), { 5; 6 }, data![{ x } = iter!([{ if let Some(q) = Some(y) { q } else { "no" } }, x]), idm!(bdo!{v as u32, loop { break "\u{1}" }}), picture!{img!{".prop" = k, href = P0 { a: "other", b: y }.b}, r#async = "data-x", Some(x)}, frag = iter!("<", [if !k { x } else { y }, idf(if let Some(q) = Some(x) { q } else { "no" })]), { let q = x; q } = W0(x)], [x, "other"][0])) }
    h_14_g100(b) { let x = t(1); let y = t(1); lit("<time "); esc(y); lit("=\"<param t1=\"世界\">\" "); esc(x); lit("=\"["); esc(x); lit("]"); esc(x); lit("\"><script><source x=\"["); esc(x); lit("]\" v-on:a.b=\"   \">"); esc(x); lit("</script></time>"); end(b, time!{{ let q = y; q } = param!{t1 = loop { break "世界" }}, script!(source![x = format_args!("[{}]", x), "v-on:a.b" = classes!["", "  "]], idf(x),), Some(x) = frag!{format_args!("[{}]", x), 'q: { break 'q idm!(x) }}}) }
    h_14_g101(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<a>"); if k || k { lit("<area buffer=\""); lit_dec(v as u32); lit("\" "); esc(x); lit("=\""); esc(x); lit("\">"); } else { lit("\u{1f468}\u{200d}\u{1f469}"); } lit("<base"); if k { lit(" buffer"); } lit(" q&#39;&lt;=\"é\"></a>"); end(b, a!(frag_match!(if k || k { area!(buffer = S0.m(v), S0.m(x) = ({ let q = x; q })) } else { "\u{1f468}\u{200d}\u{1f469}" }), base!{buffer = bool!(k), "q'<" = 'é'})) }
    h_14_g102(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<bdi><source "); esc(x); lit("=\"["); esc(x); lit("]\" for=\"<meta>\">"); lit(x); esc(x); lit("{{}}<meta"); if k { lit(" dyn"); } lit(" q&#39;&lt;=\" "); lit_dec(v as u32); lit(" \u{7f}\"></bdi>"); end(b, bdi!{source!{(y, 1).0 = bool!({ false }), Some(x) = format_args!("[{}]", x), r#for = meta![]}, frag!(frag!(), laby::raw!(x), x, loop { break "{{}}" }), meta![r#dyn = bool!(!!k), "q'<" = classes!(frag!(), v as u32, if true { "\u{7f}" } else { "\u{7f}" })]}) }
    h_14_g103(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<cite value=\""); esc(x); lit(", "); esc(x); lit("\"><rp><tbody blk"); if k || l { lit(" class"); } lit(" .prop=\""); esc(x); lit("\">97true</tbody></rp>"); if k { esc(y); } esc(x); lit(" <nav @click=\""); lit(x); lit("\" "); esc(y); lit("=\"r#&quot;\" Value=\"\"><col></nav>  2.0</cite>"); end(b, cite!(rp!((tbody!('a' as u32, { "blk" } = bool!((true)), 1 < 2, class = bool!(k || l), ".prop" = classes![Some(x)],))), value = iter!(", ", [&x[..], (move |q: &'static str| q)(x)]), frag!(if !!k { Some(y) } else { None }), classes!(({ let q = x; q }), nav!{"@click" = raw!({ x }), (y, 1).0 = if true { "r#\"" } else { "r#\"" }, col!(), Value = { "UP"; }}, { "&amp;"; }, match 0 { _ => 2.0 }))) }
    h_14_g104(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<details x=\""); esc(y); lit(", "); esc(x); lit("\">"); if k { lit("<embed Value=\""); if k { esc(y); } else { lit("&amp;"); } lit("\" t1=\"nl\n\">"); } else if k { lit("<base>"); } else { lit("0"); } lit("</details>"); end(b, details!{x = iter!(", ", [{ y }, idm!(x)]), frag_match!(if k { embed![Value = frag_match!(if idb(k) { 'q: { break 'q y } } else { loop { break "&" } }), t1 = concat!("nl\n", "")] } else if { k } { base!() } else { 0 })}) }
    h_14_g105(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<fieldset "); esc(y); lit("=\"7\">["); esc(y); lit("]<select id=\"&#39;\""); if k { lit(" style"); } lit(" t1=\"\"><noscript _u=\"\" aria-label=\"<hr "); esc(x); lit("=\""); if k { esc(x); } lit("\" "); esc(x); lit("=\"\" static=\""); lit_dec(v as u32); lit(" \">\" t1=\""); esc(y); lit(" "); esc(x); lit("\"></noscript><img>tab\t</select></fieldset>"); end(b, fieldset!(format_args!("[{}]", y), select!(noscript!(_u = frag!(), "aria-label" = hr!({ let q = x; q } = classes!{if (k) { Some(x) } else { None }}, { let q = x; q } = classes!(), r#static = classes!{v as u32, ()}), t1 = classes!(y, x)), id = '\'', style = bool!((|| k)()), frag!(img!(), concat!("tab\t", ""),), t1 = {}), { y } = mk::SEV)) }
    h_14_g106(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<h3 true_=\"{{}}\" Value=\"["); esc(y); lit("]\" in=\"\">"); lit(y); esc(x); esc(x); lit("<iframe>"); esc(y); lit("<meta q&#39;&lt;=\" "); if k { lit("<img>"); } else { lit("<img a1=\""); esc(x); lit("\" "); esc(y); lit("=\""); esc(x); lit("\" "); esc(y); lit("=\""); esc(x); lit("\">"); } lit("\""); if k || k { lit(" title"); } if k { lit(" "); esc(y); } lit("></iframe></h3>"); end(b, h3!(r#true_ = const0!("{{}}"), laby::raw!(y), Value = format_args!("[{}]", y), r#in = { "0"; }, classes!(frag!()), iter!("", [x, x]), iframe!(&y[..], meta!{"q'<" = classes!(classes!(), frag_match!(if { k } { img!() } else { img!{a1 = if let Some(q) = Some(x) { q } else { "no" }, idm!(y) = (|| x)(), [y][0] = (x)} }),), title = bool!(k || k), S0.m(y) = bool!(!!k),}))) }
    h_14_g107(b) { let x = t(1); let y = t(1); let k = bool_(); let l = bool_(); lit("<html name=\""); lit(if k { "true" } else { "false" }); lit("["); esc(x); lit("]"); esc(x); lit("\">"); esc(x); lit("{<label onclick=\"&amp;\">"); esc(x); lit("</label>|<q><wbr a1=\"&lt;\"><base n0=\""); esc(x); lit(" "); esc(y); lit("<"); esc(x); lit("   two  \">a\r\nb"); esc(x); lit("</q>}["); esc(y); lit("]"); if !k { esc(x); } lit("</html>"); end(b, html!(("other", x).1, cmp1!(b = q!{wbr!(a1 = '<'), base!(NM[0] = classes!(x, iter!("<", [y as &str, x]), idf("  two  "))), frag!["a\r\nb", (|| 'q: { break 'q x })()]}, a = label!{idf(x), onclick = "&",}), name = frag![!!k, {}, format_args!("[{}]", x), Some(x)], frag!(format_args!("[{}]", y), if k ^ true { Some(x) } else { None }))) }
    h_14_g108(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); lit("<li><h1 "); esc(x); lit("=\""); esc(x); lit("\" Value=\""); esc(x); lit("\"><col div=\""); if k { esc(x); } lit("\"></h1><mark>\r"); if v == 0 { if v == 0 { lit("&amp;#39;"); esc(y); } else if v < 10 { lit("<wbr>"); } else { lit("many"); } } else if v < 10 { esc(y); } else { lit("many"); } lit("<source lang=\"\"></mark></li>"); end(b, li!(classes!(), h1!{[x][0] = { x }, col!(div = if k { Some(x) } else { None }), Value = x}, mark!{match 0 { _ => "\r" }, frag_match!(match v { 0 => frag!{frag_match!(match v { 0 => frag!("&#39;", "", y), 1..=9 => wbr!(), _ => "many" })}, 1..=9 => P0 { a: "other", b: y }.b, _ => "many" }), source!(lang = None::<&str>)})) }
    h_14_g109(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); lit("<nav>"); if v == 0 { if !k { lit("<strong>0123456789abcdef&lt;</strong>"); } } else if v < 10 { lit("<meta "); esc(x); lit("=\""); esc(x); esc(x); lit(" "); lit(if k && k { "true" } else { "false" }); lit("\">"); } else { lit("many"); } lit("</nav>"); end(b, nav!(frag_match!(match v { 0 => if k ^ true { Some(strong!(({ ("0123456789abcdef<") }))) } else { None }, 1..=9 => meta!(idm!(x) = classes!(iter!([[x, "other"][0], x]), (k && k))), _ => "many" }))) }
}
