//! fragments and class lists
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{string::String, format, vec};
case! {
    h_19_frag_empty(b) { end(b, frag!()) }
    h_19_frag_one(b) { let x = t(3); w![[x]]; end(b, frag!(x)) }
    h_19_frag_three(b) { let x = t(2); let y = t(1); let z = t(1); w![[x], [y], [z]]; end(b, frag!(x, y, z)) }
    h_19_frag_lits(b) { let x = t(1); w!["a", "&lt;", "1", [x], "b", " ", "c"]; end(b, frag!("a", '<', 1, x, "b", " ", "c")) }
    h_19_frag_nested(b) { let x = t(1); let y = t(1); w![[x], [y], "1", [x], [y]]; end(b, frag!(frag!(x, frag!(y)), frag!(), frag!("1", frag!(frag!(x))), y)) }
    h_19_frag_elems(b) { let x = t(1); let y = t(1); w!["<p>", [x], "</p>", [y], "<br>", "<p></p>"]; end(b, frag!(p!(x), y, br!(), p!())) }
    h_19_frag_kinds(b) { let x = t(1); let v = u8_(); let c = any_char(); let k = bool_(); esc(x); lit_dec(v as u32); esc_char(c); lit(if k { "true" } else { "false" }); if k { esc(x) } esc(x); lit(x); end(b, frag!(x, v, c, k, if k { Some(x) } else { None }, (), String::from(x), raw!(x))) }
    h_19_frag_trailing(b) { let x = t(1); w![[x], [x]]; end(b, frag!(x, x,)) }
    h_19_frag_many(b) { let x = t(1); for _ in 0..16 { esc(x); lit(",") } end(b, frag!(x, ",", x, ",", x, ",", x, ",", x, ",", x, ",", x, ",", x, ",", x, ",", x, ",", x, ",", x, ",", x, ",", x, ",", x, ",", x, ",")) }
    h_19_classes_empty(b) { end(b, classes!()) }
    h_19_classes_one(b) { let x = t(3); w![[x]]; end(b, classes!(x)) }
    h_19_classes_two(b) { let x = t(2); let y = t(2); w![[x], " ", [y]]; end(b, classes!(x, y)) }
    h_19_classes_lits(b) { w!["a b c"]; end(b, classes!("a", "b", "c")) }
    h_19_classes_mixed(b) { let x = t(1); let y = t(1); w!["a ", [x], " b ", [y], " ", [x], " c"]; end(b, classes!("a", x, "b", y, x, "c")) }
    h_19_classes_lit_first(b) { let x = t(1); w!["a b ", [x]]; end(b, classes!("a", "b", x)) }
    h_19_classes_lit_last(b) { let x = t(1); w![[x], " a b"]; end(b, classes!(x, "a", "b")) }
    h_19_classes_empty_values(b) { let x = t(1); w!["  ", [x], "  "]; end(b, classes!("", "", x, None::<&str>, ())) }
    h_19_classes_opt(b) { let x = t(1); let k = bool_(); w!["a "]; if k { esc(x) } w![" b"]; end(b, classes!("a", if k { Some(x) } else { None }, "b")) }
    h_19_classes_kinds(b) { let x = t(1); let v = u8_(); let c = any_char(); lit_dec(v as u32); lit(" "); esc_char(c); w![" true ", [x], " ", (x), " 5"]; end(b, classes!(v, c, true, String::from(x), raw!(x), 5)) }
    h_19_classes_nested(b) { let x = t(1); let y = t(1); w!["a b ", [x], " c ", [y]]; end(b, classes!("a", classes!("b", x), classes!("c"), y)) }
    h_19_classes_deep(b) { let x = t(1); w![[x], " 1 2 ", [x], " 3 4"]; end(b, classes!(classes!(classes!(x, "1"), "2"), classes!(x, classes!("3", classes!("4"))))) }
    h_19_classes_frag(b) { let x = t(1); let y = t(1); w![[x], " ab", [y], " c"]; end(b, classes!(x, frag!("a", "b", y), "c")) }
    h_19_classes_empty_frag(b) { let x = t(1); w!["a  ", [x], " "]; end(b, classes!("a", frag!(), x, classes!())) }
    h_19_classes_elems(b) { let x = t(1); w!["<i>", [x], "</i> <b></b> <br>"]; end(b, classes!(i!(x), b!(), br!())) }
    h_19_frag_classes(b) { let x = t(1); let y = t(1); w!["1", [x], " ", [y], "2a b", [x]]; end(b, frag!("1", classes!(x, y), "2", classes!("a", "b"), x)) }
    h_19_attr(b) { let x = t(1); let y = t(1); w!["<p class=\"", [x], " ", [y], "\"></p>"]; end(b, p!(class = classes!(x, y))) }
    h_19_attr_frag(b) { let x = t(1); let y = t(1); w!["<p id=\"p", [x], "-", [y], "\"></p>"]; end(b, p!(id = frag!("p", x, "-", y))) }
    h_19_attr_nested(b) { let x = t(1); let y = t(1); w!["<p class=\"a ", [x], " b", [y], " c\"></p>"]; end(b, p!(class = classes!("a", classes!(x, frag!("b", y)), "c"))) }
    h_19_attr_void(b) { let x = t(1); w!["<img class=\"a ", [x], "\" alt=\"", [x], "\">"]; end(b, img!(class = classes!("a", x), alt = frag!(x))) }
    h_19_child(b) { let x = t(1); let y = t(1); w!["<p>", [x], " ", [y], [x], [y], "</p>"]; end(b, p!(classes!(x, y), frag!(x, y))) }
    h_19_child_var(b) { let x = t(1); let y = t(1); w!["<p>", [x], " ", [y], [x], [y], "</p>"]; let c = classes!(x, y); let f = frag!(x, y); end(b, p!(c, f)) }
    h_19_iter(b) { let x = t(1); let y = t(1); w!["<i>", [x], "</i> <i>", [y], "</i> z"]; end(b, classes!(iter!(" ", [x, y].into_iter().map(|v| i!(v))), "z")) }
    h_19_classes_many(b) { let x = t(1); for i in 0..12 { if i > 0 { lit(" ") } esc(x) } end(b, classes!(x, x, x, x, x, x, x, x, x, x, x, x)) }
    h_19_classes_trailing(b) { let x = t(1); w![[x], " a"]; end(b, classes!(x, "a",)) }
    h_19_classes_spaces(b) { let x = t(1); w![" a   b  ", [x]]; end(b, classes!(" a ", " b ", x)) }
    h_19_classes_match(b) { let x = t(1); let n = choose(3); w!["a "]; match n { 0 => lit("zero"), 1 => esc(x), _ => {} } w![" b"]; end(b, classes!("a", frag_match!(match n { 0 => "zero", 1 => x, _ => () }), "b")) }
    h_19_user_wrapper(b) { let x = t(1); w![[x], "-", [x]]; fn f(x: &'static str) -> impl Render { frag!(x, "-", x) } end(b, f(x)) }
    h_19_frag_of_vec(b) { let x = t(1); w![[x], [x], "|", [x]]; end(b, frag!(iter!(vec![x, x]), "|", iter!(vec![x]))) }
}
