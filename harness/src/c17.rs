//! boolean attributes
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::string::String;
fn sw(k: bool, s: &str) { if k { lit(s) } }
struct Flags { on: bool, name: &'static str }
case! {
    h_17_lit(b) { w!["<button disabled></button>"]; end(b, button!(disabled = bool!(true))) }
    h_17_lit_off(b) { w!["<button></button>"]; end(b, button!(disabled = bool!(false))) }
    h_17_lits(b) { w!["<button a c e></button>"]; end(b, button!(a = bool!(true), b = bool!(false), c = bool!((true)), d = bool!({ false }), e = bool!({ (true) }))) }
    h_17_one(b) { let k = bool_(); w!["<button"]; sw(k, " disabled"); w!["></button>"]; end(b, button!(disabled = bool!(k))) }
    h_17_four(b) { let k = bool_(); let l = bool_(); let m = bool_(); let n = bool_(); w!["<button"]; sw(k, " a"); sw(l, " b"); sw(m, " c"); sw(n, " d"); w!["></button>"]; end(b, button!(a = bool!(k), b = bool!(l), c = bool!(m), d = bool!(n))) }
    h_17_same(b) { let k = bool_(); let x = t(1); w!["<button"]; sw(k, " a"); sw(!k, " b"); w![" v=\"", [x], "\""]; sw(k, " c"); w![">", [x], "</button>"]; end(b, button!(a = bool!(k), b = bool!(!k), v = x, c = bool!(k), x)) }
    h_17_neighbours(b) { let k = bool_(); let x = t(1); let y = t(1); w!["<input a=\"", [x], "\""]; sw(k, " checked"); w![" b=\"", [y], "\">"]; end(b, input!(a = x, checked = bool!(k), b = y)) }
    h_17_between_lits(b) { let k = bool_(); w!["<input a=\"1\""]; sw(k, " checked"); w![" b=\"2\">"]; end(b, input!(a = "1", checked = bool!(k), b = "2")) }
    h_17_lit_name(b) { let k = bool_(); let l = bool_(); w!["<p"]; sw(k, " data-on"); sw(l, " a&amp;b"); w!["></p>"]; end(b, p!("data-on" = bool!(k), "a&b" = bool!(l))) }
    h_17_lit_name_forms(b) { let k = bool_(); w!["<p"]; sw(k, " x-y"); sw(k, " 5"); sw(k, " c"); sw(k, " r\\"); w![" x-y 5></p>"]; end(b, p!({ "x-y" } = bool!(k), 5 = bool!(k), ('c') = bool!(k), r"r\" = bool!(k), ("x-y") = bool!(true), 5 = bool!(true))) }
    h_17_dyn_name(b) { let k = bool_(); let x = t(2); w!["<p"]; if k { lit(" "); esc(x) } w!["></p>"]; end(b, p!({ x } = bool!(k))) }
    h_17_dyn_name_lit(b) { let x = t(2); w!["<p ", [x], "></p>"]; end(b, p!({ x } = bool!(true), { x } = bool!(false))) }
    h_17_dyn_names(b) { let k = bool_(); let l = bool_(); let x = t(1); let y = t(1); w!["<p"]; if k { lit(" "); esc(x) } w![" id=\"", [y], "\""]; if l { lit(" "); esc(y) } w![">", [x], "</p>"]; end(b, p!({ x } = bool!(k), id = y, { y } = bool!(l), x)) }
    h_17_dyn_kinds(b) { let k = bool_(); let x = t(1); w!["<p"]; if k { lit(" data-"); esc(x); lit(" "); esc(x); lit(" "); esc(x) } w!["></p>"]; end(b, p!(format_args!("data-{}", x) = bool!(k), String::from(x) = bool!(k), (x) = bool!(k))) }
    h_17_raw_ident(b) { let k = bool_(); w!["<script"]; sw(k, " async"); sw(!k, " loop"); w![" type></script>"]; end(b, script!(r#async = bool!(k), r#loop = bool!(!k), r#type = bool!(true))) }
    h_17_expr(b) { let v = u8_(); let x = t(2); w!["<p"]; sw(v > 100, " big"); sw(v % 2 == 0, " even"); sw(x.len() == 2, " two"); sw(v == 7 || v == 9, " odd"); w!["></p>"]; end(b, p!(big = bool!(v > 100), even = bool!(v % 2 == 0), two = bool!(x.len() == 2), odd = bool!(v == 7 || v == 9))) }
    h_17_expr_forms(b) { let k = bool_(); let l = bool_(); w!["<p"]; sw(k && l, " a"); sw(if k { l } else { true }, " b"); sw(!k, " c"); sw(k, " d"); sw(k | l, " e"); w!["></p>"]; fn id(k: bool) -> bool { k } end(b, p!(a = bool!(k && l), b = bool!(if k { l } else { true }), c = bool!({ let m = !k; m }), d = bool!(id(k)), e = bool!((k | l)))) }
    h_17_match(b) { let n = choose(4); w!["<p"]; sw(n == 1 || n == 3, " a"); sw(n == 2, " b"); w!["></p>"]; end(b, p!(a = bool!(matches!(n, 1 | 3)), b = bool!(match n { 2 => true, _ => false }))) }
    h_17_field(b) { let f = Flags { on: bool_(), name: t(1) }; w!["<p"]; sw(f.on, " on"); if f.on { lit(" "); esc(f.name) } w!["></p>"]; end(b, p!(on = bool!(f.on), f.name = bool!(f.on))) }
    h_17_void(b) { let k = bool_(); let l = bool_(); w!["<input type=\"checkbox\""]; sw(k, " checked"); sw(l, " disabled"); w!["><br"]; sw(l, " clear"); w![">"]; end(b, frag!(input!(r#type = "checkbox", checked = bool!(k), disabled = bool!(l)), br!(clear = bool!(l)))) }
    h_17_nested(b) { let k = bool_(); let l = bool_(); let x = t(1); w!["<select"]; sw(k, " multiple"); w!["><option"]; sw(l, " selected"); w![">", [x], "</option><option"]; sw(!l, " selected"); w!["></option></select>"]; end(b, select!(option!(x, selected = bool!(l)), option!(selected = bool!(!l)), multiple = bool!(k))) }
    h_17_nested_var(b) { let k = bool_(); let l = bool_(); let x = t(1); w!["<select"]; sw(k, " multiple"); w!["><option"]; sw(l, " selected"); w![">", [x], "</option></select>"]; let o = option!(x, selected = bool!(l)); end(b, select!(o, multiple = bool!(k))) }
    h_17_children(b) { let k = bool_(); let x = t(1); let y = t(1); w!["<p"]; sw(k, " a"); w![">", [x], "t", [y], "</p>"]; end(b, p!(x, a = bool!(k), "t", y)) }
    h_17_only_false(b) { let x = t(1); w!["<p>", [x], "</p>"]; end(b, p!(a = bool!(false), x, b = bool!(false))) }
    h_17_first_last(b) { let k = bool_(); let l = bool_(); w!["<p"]; sw(k, " a"); w![" m=\"1\" n=\"2\""]; sw(l, " z"); w!["></p>"]; end(b, p!(a = bool!(k), m = 1, n = "2", z = bool!(l))) }
    h_17_const(b) { const ON: bool = true; const OFF: bool = false; w!["<p a></p>"]; end(b, p!(a = bool!(ON), b = bool!(OFF))) }
    h_17_ref(b) { let k = bool_(); let r = &k; w!["<p"]; sw(k, " a"); w!["></p>"]; end(b, p!(a = bool!(*r))) }
    h_17_dup(b) { let k = bool_(); w!["<p"]; sw(k, " a"); sw(!k, " a"); w!["></p>"]; end(b, p!(a = bool!(k), a = bool!(!k))) }
    h_17_plain_bool(b) { let k = bool_(); w!["<p a=\""]; lit(if k { "true" } else { "false" }); w!["\" b=\"true\""]; sw(k, " c"); w!["></p>"]; end(b, p!(a = k, b = true, c = bool!(k))) }
    h_17_all_tags(b) { let k = bool_(); let on = if k { " open" } else { "" }; w!["<details", (on), "><dialog", (on), "></dialog><video", (on), "></video><ol", (on), "></ol><img", (on), "></details>"]; end(b, details!(open = bool!(k), dialog!(open = bool!(k)), video!(open = bool!(k)), ol!(open = bool!(k)), img!(open = bool!(k)))) }
    h_17_eight(b) { let v = u8_(); w!["<p"]; for i in 0..8 { sw(v >> i & 1 == 1, [" a", " b", " c", " d", " e", " f", " g", " h"][i]) } w!["></p>"]; end(b, p!(a = bool!(v & 1 == 1), b = bool!(v & 2 != 0), c = bool!(v & 4 != 0), d = bool!(v & 8 != 0), e = bool!(v & 16 != 0), f = bool!(v & 32 != 0), g = bool!(v & 64 != 0), h = bool!(v & 128 != 0))) }
}
