//! normal elements
use crate::pre::*;
use laby::*;
macro_rules! tags { ($($t:ident)*) => {
    pub const N: usize = [$(stringify!($t)),*].len();
    /// every form of the element of this number
    fn run(i: usize, f: usize, b: Buffer) { let mut k = 0; $( if i == k { return one::$t(f, b) } k += 1; )* }
    mod one { use crate::pre::*; use laby::*; $( pub fn $t(f: usize, buf: Buffer) {
        let n = stringify!($t);
        let x = t(2); let y = t(1); let v = u8_(); let on = bool_();
        match f {
            0 => { w!["<", (n), "></", (n), ">"]; end(buf, laby::$t!()) }
            1 => { w!["<", (n), ">", [x], "</", (n), ">"]; end(buf, $t!(x)) }
            2 => { w!["<", (n), " id=\"", [x], "\" class=\"k\">", [y], "z", "</", (n), ">"]; end(buf, $t!(id = x, y, class = "k", "z")) }
            3 => { w!["<", (n), "><", (n), ">", [x], "</", (n), ">", "l&lt;", "5", "<div>", [y], "</div>"]; if on { esc(x) } w![(y), "<br>", "c", "</", (n), ">"];
                   end(buf, $t!($t!(x), "l<", 5, div!(y), if on { Some(x) } else { None }, raw!(y), br!(), 'c')) }
            4 => { w!["<div><", (n), " id=\"", [x], "\">", [y], "</", (n), "><", (n), "></", (n), "></div>"]; end(buf, div!($t!(y, id = x), $t!())) }
            5 => { w!["<div><", (n), ">", [x], "</", (n), "><", (n), ">", [y], "</", (n), "></div>"]; let e = $t!(x); end(buf, div!(e, $t!(y))) }
            6 => { w!["<p><", (n), ">", [x], "</", (n), ">m<", (n), ">", [y], "</", (n), "> <", (n), "></", (n), "></p>"]; end(buf, p!(frag!($t!(x), "m"), classes!($t!(y), $t!()))) }
            7 => { w!["<", (n)]; if on { lit(" hidden") } w![" a=\"", [x], "\">", [y], "</", (n), ">"]; end(buf, $t!(hidden = bool!(on), a = x, y)) }
            8 => { w!["<", (n), ">", [x], [y], [x], "-", [y], "</", (n), ">"]; end(buf, $t!(x, y, x, "-", y,)) }
            9 => { w!["<", (n), "><", (n), "><", (n), ">", [x], "</", (n), ">", [y], "</", (n), ">", [x], "</", (n), ">"]; end(buf, $t!($t!($t!(x), y), x)) }
            10 => { w!["<ul><", (n), ">", [x], "</", (n), ">", [y], "</ul>"]; end(buf, ul!(laby::$t!(x), y)) }
            _ => { lit("<"); lit(n); lit(">"); lit_dec(v as u32); w![",", [x], ".", [y], "</", (n), ">"]; end(buf, $t!(v, ",", { let s = x; s }, format_args!(".{}", y))) }
        }
    } )* }
} }
tags! { a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul var video }
/// capacity, previous length, form
#[no_mangle] pub fn h_14_tags() { let b = start(p(0), p(1)); let i = choose(N); run(i, p(2), b); check(live() == 0, 2) }
case! {
    h_14_kinds(b) { let x = t(2); let y = t(1); let c = any_char(); let k = bool_();
        w!["<div>", [x], "lit&amp;", "&lt;", "true", "0x", "31", "<b>", [y], "</b>"]; lit(if k { "true" } else { "false" }); esc_char(c); w!["7", "</div>"];
        end(b, div!(x, "lit&", '<', true, "0x", 0x1f, b!(y), k, c, 7u8)) }
    h_14_expr_kinds(b) { let x = t(2); let y = t(1); let n = choose(3);
        w!["<p>", [x], "|", [y], "|"]; esc(if n == 1 { x } else { y }); w!["|"]; match n { 0 => lit("zero"), 1 => esc(x), _ => {} } w!["|", [y], "|", [x], "</p>"];
        end(b, p!({ let z = x; z }, "|", (y), "|", if n == 1 { x } else { y }, "|", match n { 0 => Some("zero"), 1 => Some(x), _ => None }, "|", [x, y][1], "|", (|| x)())) }
    h_14_many(b) { let x = t(1); w!["<div>"]; for _ in 0..24 { esc(x) } w!["</div>"]; end(b, div!(x, x, x, x, x, x, x, x, x, x, x, x, x, x, x, x, x, x, x, x, x, x, x, x)) }
    h_14_long_literal(b) { let x = t(2); w!["<p>", "0123456789abcdef0123456789abcdef0123456789&lt;abcdef0123456789", [x], "0123456789abcdef0123456789&#39;abcdef", "</p>"]; end(b, p!("0123456789abcdef0123456789abcdef0123456789<abcdef0123456789", x, "0123456789abcdef0123456789'abcdef")) }
    h_14_unicode(b) { let x = t(2); w!["<p>", "h\u{e9}llo \u{4e16}\u{1f600}", [x], "\u{80}\0\n\t", "</p>"]; end(b, p!("h\u{e9}llo \u{4e16}\u{1f600}", x, "\u{80}\0\n\t")) }
    h_14_empty_children(b) { let x = t(1); w!["<p>", [x], "</p>"]; end(b, p!("", (), x, None::<&str>, frag!(), "", iter!([(); 0]), raw!(""))) }
    h_14_siblings(b) { let x = t(1); let y = t(1); w!["<tr><td>", [x], "</td><td>", [y], "</td><td><a href=\"", [x], "\">", [y], "</a><br></td></tr>"]; end(b, tr!(td!(x), td!(y), td!(a!(href = x, y), br!()))) }
    h_14_page(b) { let x = t(2); let y = t(2); w!["<html lang=\"en\"><head><title>", [x], "</title><meta charset=\"utf-8\"></head><body class=\"", [y], "\"><h1>", [x], "</h1><p>", [y], "</p></body></html>"];
        end(b, html!(lang = "en", head!(title!(x), meta!(charset = "utf-8")), body!(class = y, h1!(x), p!(y)))) }
    h_14_user(b) { let x = t(1); w!["<ol><li>", [x], "</li><li>2</li></ol>"]; end(b, ol!(Li(x), Li(2))) }
    h_14_functions(b) { let x = t(1); w!["<div><div><span>", [x], "</span></div></div>"]; fn comp(n: impl Render) -> impl Render { div!(n) } end(b, comp(comp(span!(x)))) }
}
struct Li<T>(T);
impl<T: Render> Render for Li<T> { fn render(self, b: &mut Buffer) { li!(self.0).render(b) } }
