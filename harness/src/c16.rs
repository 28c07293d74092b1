//! attributes
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{borrow::Cow, string::String, format};
struct Val<'a>(&'a str);
impl<'a> Render for Val<'a> { fn render(self, b: &mut Buffer) { self.0.render(b) } }
const NAME: &str = "data-const";
struct Names { data: &'static str }
case! {
    h_16_ident(b) { let x = t(3); w!["<p id=\"", [x], "\"></p>"]; end(b, p!(id = x)) }
    h_16_two(b) { let x = t(2); let y = t(2); w!["<p id=\"", [x], "\" class=\"", [y], "\"></p>"]; end(b, p!(id = x, class = y)) }
    h_16_order(b) { let x = t(1); let y = t(1); let z = t(1); w!["<a href=\"", [x], "\" id=\"", [y], "\" rel=\"", [z], "\" class=\"", [x], "\"></a>"]; end(b, a!(href = x, id = y, rel = z, class = x)) }
    h_16_rev(b) { let x = t(1); let y = t(1); let z = t(1); w!["<a class=\"", [x], "\" rel=\"", [z], "\" id=\"", [y], "\" href=\"", [x], "\"></a>"]; end(b, a!(class = x, rel = z, id = y, href = x)) }
    h_16_raw_ident(b) { let x = t(2); w!["<input type=\"", [x], "\" for=\"", [x], "\" loop=\"loop\">"]; end(b, input!(r#type = x, r#for = x, r#loop = "loop")) }
    h_16_raw_ident_vals(b) { let x = t(1); w!["<label for=\"a\" as=\"", [x], "\" async=\"&amp;\">", [x], "</label>"]; end(b, label!(r#for = "a", r#as = x, r#async = '&', x)) }
    h_16_lit_name(b) { let x = t(2); w!["<div data-id=\"", [x], "\" aria-label=\"", [x], "\" @click=\"v\"></div>"]; end(b, div!("data-id" = x, "aria-label" = x, "@click" = "v")) }
    h_16_lit_name_forms(b) { let x = t(1); w!["<div a-b=\"", [x], "\" c=\"1\" 5=\"", [x], "\" raw=\"", [x], "\" p-q=\"2\"></div>"]; end(b, div!({ "a-b" } = x, 'c' = 1, 5 = x, r#"raw"# = x, ("p-q") = 2)) }
    h_16_lit_name_special(b) { let x = t(1); w!["<div a&amp;b=\"", [x], "\" q&quot;=\"v\"></div>"]; end(b, div!("a&b" = x, "q\"" = "v")) }
    h_16_dyn_name(b) { let x = t(2); let n = t(2); w!["<div ", [n], "=\"", [x], "\"></div>"]; end(b, div!({ n } = x)) }
    h_16_dyn_names(b) { let x = t(1); let n = t(1); let m = t(1); w!["<div ", [n], "=\"", [x], "\" ", [m], "=\"lit\" k=\"", [x], "\" ", [n], "=\"", [m], "\"></div>"]; end(b, div!({ n } = x, { m } = "lit", k = x, { n } = m)) }
    h_16_expr_names(b) { let n = t(1); let x = t(1); w!["<div data-", [n], "=\"", [x], "\" ", [n], "-x=\"", [x], "\" data-const=\"", [x], "\"></div>"]; end(b, div!(format_args!("data-{}", n) = x, format!("{}-x", n) = x, { NAME } = x)) }
    h_16_name_field(b) { let x = t(1); let q = Names { data: t(1) }; w!["<div ", [q.data], "=\"", [x], "\" ", [q.data], "=\"i\"></div>"]; let l = [q.data]; end(b, div!(q.data = x, l[0] = "i")) }
    h_16_name_paren_ident(b) { let n = t(1); let x = t(1); w!["<div ", [n], "=\"", [x], "\"></div>"]; end(b, div!((n) = x)) }
    h_16_name_path(b) { let x = t(1); w!["<div data-const=\"", [x], "\"></div>"]; end(b, div!(self::NAME = x)) }
    h_16_name_call(b) { let x = t(1); fn f() -> &'static str { "data-f" } w!["<div data-f=\"", [x], "\" v=\"", [x], "\"></div>"]; end(b, div!(f() = x, Val("v") = Val(x))) }
    h_16_name_ident_shadow(b) { let id = t(1); w!["<div id=\"", [id], "\" class=\"k\"></div>"]; let class = "no"; end(b, div!(id = id, class = "k")) }
    h_16_value_lits(b) { w!["<p a=\"&lt;&amp;&quot;&#39;&gt;\" b=\"&quot;\" c=\"true\" d=\"0\" e=\"255\" f=\"18446744073709551616\" g=\"97\" h=\"\" i=\"5\" j=\"-1\"></p>"]; end(b, p!(a = "<&\"'>", b = '"', c = true, d = 0, e = 0xff, f = 18446744073709551616, g = b'a', h = "", i = (5), j = -1)) }
    h_16_value_kinds(b) { let x = t(2); let v = u8_(); let k = bool_(); let c = any_char();
        w!["<p a=\"", [x], "\" b=\""]; lit_dec(v as u32); w!["\" c=\""]; lit(if k { "true" } else { "false" }); w!["\" d=\""]; esc_char(c); w!["\" e=\""]; if k { esc(x) } w!["\" f=\"\" g=\"", [x], "\"></p>"];
        end(b, p!(a = x, b = v, c = k, d = c, e = if k { Some(x) } else { None }, f = (), g = String::from(x))) }
    h_16_value_fmt(b) { let x = t(2); w!["<p style=\"width: ", [x], "px\" t=\"", [x], "&quot;\"></p>"]; end(b, p!(style = format_args!("width: {}px", x), t = format!("{}\"", x))) }
    h_16_value_raw(b) { let x = t(2); let y = t(2); w!["<p a=\"", (x), "\" b=\"", [y], "\"></p>"]; end(b, p!(a = raw!(x), b = y)) }
    h_16_value_classes(b) { let x = t(1); let y = t(1); let k = bool_(); w!["<p class=\"a ", [x], " "]; if k { esc(y) } w![" b\" id=\"i\"></p>"]; end(b, p!(class = classes!("a", x, if k { Some(y) } else { None }, "b"), id = "i")) }
    h_16_value_iter(b) { let x = t(1); let y = t(1); w!["<p class=\"", [x], " ", [y], "\" v=\"", [y], [x], "\"></p>"]; end(b, p!(class = iter!(" ", [x, y]), v = iter!([y, x]))) }
    h_16_value_match(b) { let x = t(1); let n = choose(3); w!["<p class=\""]; match n { 0 => lit("zero"), 1 => esc(x), _ => {} } w!["\"></p>"]; end(b, p!(class = frag_match!(match n { 0 => "zero", 1 => x, _ => () }))) }
    h_16_value_if(b) { let x = t(1); let k = bool_(); w!["<p class=\""]; if k { esc(x) } else { lit("off") } w!["\" id=\""]; if k { lit("1") } w!["\"></p>"]; end(b, p!(class = frag_match!(if k { x } else { "off" }), id = if k { "1" } else { "" })) }
    h_16_value_frag(b) { let x = t(1); w!["<p t=\"a", [x], "1\"></p>"]; end(b, p!(t = frag!("a", x, 1))) }
    h_16_value_block(b) { let x = t(1); w!["<p t=\"", [x], "\" u=\"5\" v=\"&lt;\"></p>"]; end(b, p!(t = { let y = x; y }, u = { 5 }, v = ({ "<" }))) }
    h_16_value_user(b) { let x = t(1); w!["<p t=\"", [x], "\" u=\"", [x], "\"></p>"]; end(b, p!(t = Val(x), u = Some(Val(x)))) }
    h_16_value_nested_macro(b) { let x = t(1); w!["<p t=\"<b>", [x], "</b>\"></p>"]; end(b, p!(t = b!(x))) }
    h_16_among(b) { let x = t(1); let y = t(1); w!["<p a=\"", [x], "\" b=\"", [y], "\" c=\"", [x], "\">", [y], "<i>", [x], "</i>", "t", "</p>"]; end(b, p!(y, a = x, i!(x), b = y, "t", c = x)) }
    h_16_last(b) { let x = t(1); let y = t(1); w!["<p a=\"", [y], "\" b=\"l\">", [x], [y], "</p>"]; end(b, p!(x, y, a = y, b = "l")) }
    h_16_nested(b) { let x = t(1); let y = t(1); w!["<ul a=\"", [x], "\"><li a=\"", [y], "\" b=\"", [x], "\">", [y], "<i a=\"i\"></i></li></ul>"]; end(b, ul!(li!(y, i!(a = "i"), a = y, b = x), a = x)) }
    h_16_nested_after(b) { let x = t(1); let y = t(1); w!["<ul z=\"", [x], "\" y=\"", [y], "\"><li>", [x], "</li><li a=\"", [y], "\"></li></ul>"]; end(b, ul!(li!(x), z = x, li!(a = y), y = y)) }
    h_16_in_frag(b) { let x = t(1); w!["<i a=\"", [x], "\"></i><b b=\"", [x], "\">", [x], "</b>"]; end(b, frag!(i!(a = x), b!(b = x, x))) }
    h_16_empty_value(b) { let x = t(1); w!["<p a=\"\" b=\"\" c=\"", [x], "\"></p>"]; end(b, p!(a = "", b = None::<&str>, c = x)) }
    h_16_twice(b) { let x = t(1); let y = t(1); w!["<p a=\"", [x], "\" a=\"", [y], "\"></p>"]; end(b, p!(a = x, a = y)) }
    h_16_equal(b) { let x = t(1); w!["<p aa=\"", [x], "\" a=\"", [x], "\" aaa=\"", [x], "\"></p>"]; end(b, p!(aa = x, a = x, aaa = x)) }
    h_16_longer(b) { let x = t(5); w!["<p a=\"", [x], "\"></p>"]; end(b, p!(a = x)) }
    h_16_underscore(b) { let x = t(1); w!["<p data_id=\"", [x], "\" onClick=\"", [x], "\" _x=\"1\"></p>"]; end(b, p!(data_id = x, onClick = x, _x = 1)) }
    h_16_unicode(b) { let x = t(1); w!["<p gr\u{f6}\u{df}e=\"", [x], "\" data-\u{4e16}=\"\u{1f600}\"></p>"]; end(b, p!(größe = x, "data-\u{4e16}" = "\u{1f600}")) }
    h_16_mixed(b) { let x = t(1); let k = bool_(); w!["<input type=\"text\""]; if k { lit(" disabled") } w![" value=\"", [x], "\" data-x=\"1\" ", [x], "=\"2\">"]; end(b, input!(r#type = "text", disabled = bool!(k), value = x, "data-x" = 1, { x } = 2)) }
    h_16_moved(b) { let x = t(2); let s = String::from(x); w!["<p a=\"", [x], "\">", [x], "</p>"]; end(b, p!(x, a = s)) }
    h_16_cow(b) { let x = t(2); w!["<p a=\"", [x], "\"></p>"]; let c: Cow<str> = Cow::Borrowed(x); end(b, p!(a = &*c)) }
    h_16_float(b) { let x = t(1); w!["<p a=\"1.5\" b=\"", [x], "\" c=\"1e100\"></p>"]; end(b, p!(a = 1.5, b = x, c = 1e100)) }
}
