//! components
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{string::String, format, vec::Vec, vec};
#[laby] fn three(a: &'static str, b: &'static str, c: &'static str) -> impl Render { frag!("[", a, "|", b, "|", c, "]") }
#[laby] pub fn typed(a: &'static str, n: u8, k: bool) -> impl Render { p!(id = n, on = bool!(k), a) }
#[laby] fn defs(#[default] a: u8, b: &'static str, #[default("d")] c: &'static str, #[default(2 + 3)] d: u8) -> impl Render { frag!(a, ",", b, ",", c, ",", d) }
#[laby] fn alldef(#[default("x")] x: &'static str, #[default] y: &'static str, #[default(None)] z: Option<&'static str>) -> impl Render { frag!(x, "/", y, "/", z) }
#[laby] fn rest_last(a: &'static str, b: &'static str, #[rest] r: impl Render) -> impl Render { div!(id = a, class = b, r) }
#[laby] fn rest_first(#[rest] r: impl Render, a: &'static str, #[default("q")] b: &'static str) -> impl Render { div!(r, "-", a, "-", b) }
#[laby] fn rest_mid(a: &'static str, #[rest] r: impl Render, b: &'static str) -> impl Render { frag!(a, "(", r, ")", b) }
#[laby] fn rest_only(#[rest] r: impl Render) -> impl Render { p!(r) }
#[laby] fn none() -> impl Render { "none" }
#[laby] fn generic<T: Render, U: Render>(first: T, second: U, third: impl Render) -> impl Render { ul!(li!(first), li!(second), li!(third)) }
#[laby] fn life<'a>(x: &'a str, l: &'a [&'a str], (n): u8) -> impl Render + 'a { div!(x, iter!(",", l.iter().copied()), n) }
#[laby] fn keywords(r#type: &'static str, r#for: &'static str) -> impl Render { frag!(r#type, ":", r#for) }
#[laby] fn mutable(mut n: u8, mut s: String) -> impl Render { n = n.wrapping_add(1); s.push('!'); frag!(n, s) }
#[laby] fn nested(title: impl Render, #[rest] body: impl Render) -> impl Render { section!(h1!(title), body) }
#[laby] fn swap(b: &'static str, a: &'static str) -> impl Render { frag!(b, a) }
#[laby] fn similar(x: &'static str, xx: &'static str, x1: &'static str, _x: &'static str) -> impl Render { frag!(x, ",", xx, ",", x1, ",", _x) }
#[laby] fn defrest(#[default(())] title: impl Render, #[rest] r: impl Render) -> impl Render { frag!(title, ":", r) }
#[laby] fn lots(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8) -> u64 { let mut n = 0u64; for v in [a, b, c, d, e, f, g, h] { n = n << 8 | v as u64 } n }
#[laby] fn unit() {}
#[laby] fn closure(f: impl Fn(&'static str) -> String, x: &'static str) -> impl Render { f(x) }
#[laby] fn where_<T>(v: T, #[default(1)] n: usize) -> impl Render where T: Render + Clone { iter!(vec![v; n]) }
fn own0() -> &'static str { "own0" }
fn own1<T: Render>(x: T) -> impl Render { frag!("one:", x) }
fn own2<T: Render, U: Render>(x: T, y: U) -> impl Render { frag!(y, "/", x) }
macro_rules! count { () => { "count0" }; ($($e:expr),*) => { frag!("<", 0u8 $(+ { let _ = &$e; 1 })*, ">", iter!("+", [$($e),*])) } }
#[laby] fn wrap0(#[rest(own0)] r: impl Render, a: &'static str) -> impl Render { p!(r, a) }
#[laby] fn wrap1(#[rest(own1)] r: impl Render, #[default("d")] a: &'static str) -> impl Render { p!(r, a) }
#[laby] fn wrap2(a: &'static str, #[rest(own2)] r: impl Render) -> impl Render { p!(a, r) }
#[laby] fn wrap_closure(#[rest(|| "cl")] r: impl Render) -> impl Render { b!(r) }
#[laby] fn wrap_closure1(#[rest(|x: &'static str| x.len())] r: usize, n: u8) -> impl Render { frag!(r, n) }
#[laby] fn wrap_path(#[rest(inner::joined)] r: String) -> impl Render { r }
#[laby] fn wrap_new(#[rest(String::new)] r: String) -> impl Render { frag!("[", r, "]") }
#[laby] fn wrap_from(#[rest(String::from)] r: String, #[default(r1())] z: u8) -> impl Render { frag!("[", r, "]", z) }
#[laby] fn wrap_some(#[rest(Some)] r: Option<u8>) -> impl Render { r.map(|n| n.wrapping_add(1)) }
fn r1() -> u8 { 1 }
mod inner { pub fn joined(a: &'static str, b: &'static str, c: u8) -> super::String { super::format!("{}{}{}", c, b, a) } use laby::*; #[laby] pub fn visible(a: &'static str, #[default("v")] b: &'static str) -> impl Render { frag!(b, a) } #[laby] pub(crate) fn crated(a: &'static str, #[rest] r: impl Render) -> impl Render { frag!(r, a) } }
case! {
    h_21_wrap0(b) { let x = t(1); w!["<p>own0", [x], "</p>"]; end(b, wrap0!(a = x)) }
    h_21_wrap1(b) { let x = t(1); let y = t(1); w!["<p>one:", [x], "d</p><p>one:<b>", [x], "</b>", [y], "</p>"]; end(b, frag!(wrap1!(x), wrap1!(a = y, b!(x)))) }
    h_21_wrap2(b) { let x = t(1); let y = t(1); w!["<p>", [x], [y], "/", [x], "</p>"]; match choose(3) { 0 => end(b, wrap2!(x, a = x, y)), 1 => end(b, wrap2!(a = x, x, y)), _ => end(b, wrap2!(x, y, a = x)) } }
    h_21_wrap_closure(b) { let x = t(1); let n = u8_(); w!["<b>cl</b>"]; lit_dec(x.len() as u32); lit_dec(n as u32); end(b, frag!(wrap_closure!(), wrap_closure1!(x, n = n))) }
    h_21_wrap_path(b) { let x = t(1); let y = t(1); w!["7", [y], [x]]; end(b, wrap_path!(x, y, 7)) }
    h_21_wrap_new(b) { let x = t(1); w!["[]", "[", [x], "]1", "[", [x], "]2"]; end(b, frag!(wrap_new!(), wrap_from!(x), wrap_from!(z = 2, x))) }
    h_21_wrap_some(b) { let n = u8_(); lit_dec(n.wrapping_add(1) as u32); end(b, wrap_some!(n)) }
    h_21_three(b) { let x = t(1); let y = t(1); let z = t(1); w!["[", [x], "|", [y], "|", [z], "]"];
        match choose(6) { 0 => end(b, three!(a = x, b = y, c = z)), 1 => end(b, three!(a = x, c = z, b = y)), 2 => end(b, three!(b = y, a = x, c = z)), 3 => end(b, three!(b = y, c = z, a = x)), 4 => end(b, three!(c = z, a = x, b = y)), _ => end(b, three!(c = z, b = y, a = x,)) } }
    h_21_direct(b) { let x = t(1); let y = t(1); let z = t(1); w!["[", [x], "|", [y], "|", [z], "]"]; match choose(2) { 0 => end(b, three(x, y, z)), _ => end(b, three!(b = y, c = z, a = x)) } }
    h_21_typed(b) { let x = t(1); let n = u8_(); let k = bool_(); w!["<p id=\""]; lit_dec(n as u32); w!["\""]; if k { lit(" on") } w![">", [x], "</p>"]; match choose(3) { 0 => end(b, typed!(k = k, n = n, a = x)), 1 => end(b, typed!(n = n, a = x, k = k)), _ => end(b, typed(x, n, k)) } }
    h_21_swapped_names(b) { let a = t(1); let c = t(1); w!["[", [c], "|", [a], "|", "k", "]"]; let bb = a; end(b, three!(a = c, b = bb, c = "k")) }
    h_21_self_names(b) { let a = t(1); let c = t(1); w!["[", [a], "|m|", [c], "]"]; end(b, three!(c = c, b = "m", a = a)) }
    h_21_crossed(b) { let x = t(1); let y = t(1); w![[x], [y]]; let a = x; let q = y; end(b, swap!(a = q, b = a)) }
    h_21_defs_none(b) { let x = t(1); w!["0,", [x], ",d,5"]; end(b, defs!(b = x)) }
    h_21_defs(b) { let x = t(1); let y = t(1); let n = u8_(); let k = choose(8);
        lit_dec(if k & 1 == 1 { n as u32 } else { 0 }); w![",", [x], ","]; if k & 2 == 2 { esc(y) } else { lit("d") } w![","]; lit_dec(if k & 4 == 4 { n as u32 } else { 5 });
        match k { 0 => end(b, defs!(b = x)), 1 => end(b, defs!(a = n, b = x)), 2 => end(b, defs!(b = x, c = y)), 3 => end(b, defs!(c = y, b = x, a = n)), 4 => end(b, defs!(d = n, b = x)), 5 => end(b, defs!(d = n, a = n, b = x)), 6 => end(b, defs!(b = x, d = n, c = y)), _ => end(b, defs!(c = y, d = n, a = n, b = x)) } }
    h_21_alldef(b) { let x = t(1); let y = t(1); let z = t(1); let k = choose(8); if k & 1 == 1 { esc(x) } else { lit("x") } w!["/"]; if k & 2 == 2 { esc(y) } w!["/"]; if k & 4 == 4 { esc(z) }
        match k { 0 => end(b, alldef!()), 1 => end(b, alldef!(x = x)), 2 => end(b, alldef!(y = y)), 3 => end(b, alldef!(y = y, x = x)), 4 => end(b, alldef!(z = Some(z))), 5 => end(b, alldef!(z = Some(z), x = x)), 6 => end(b, alldef!(z = Some(z), y = y)), _ => end(b, alldef!(y = y, z = Some(z), x = x)) } }
    h_21_rest_last(b) { let x = t(1); let y = t(1); w!["<div id=\"", [x], "\" class=\"", [y], "\">1", [x], "<i>", [y], "</i></div>"]; match choose(5) { 0 => end(b, rest_last!(a = x, b = y, 1, x, i!(y))), 1 => end(b, rest_last!(1, x, i!(y), b = y, a = x)), 2 => end(b, rest_last!(1, b = y, x, a = x, i!(y))), 3 => end(b, rest_last!(b = y, 1, x, a = x, i!(y),)), _ => end(b, rest_last(x, y, frag!(1, x, i!(y)))) } }
    h_21_rest_first(b) { let x = t(1); let y = t(1); let k = choose(3); w!["<div>", [x], [y], "-", [y], "-"]; if k == 0 { lit("q") } else { esc(x) } w!["</div>"]; match k { 0 => end(b, rest_first!(x, a = y, y)), 1 => end(b, rest_first!(b = x, x, y, a = y)), _ => end(b, rest_first!(x, y, a = y, b = x)) } }
    h_21_rest_mid(b) { let x = t(1); let y = t(1); w![[x], "(", [y], [x], "9)", [y]]; match choose(3) { 0 => end(b, rest_mid!(y, x, 9, a = x, b = y)), 1 => end(b, rest_mid!(b = y, a = x, y, x, 9)), _ => end(b, rest_mid!(y, b = y, x, a = x, 9)) } }
    h_21_rest_empty(b) { let x = t(1); w!["<div id=\"", [x], "\" class=\"c\"></div>", "<p></p>"]; end(b, frag!(rest_last!(a = x, b = "c"), rest_only!())) }
    h_21_rest_many(b) { let x = t(1); w!["<p>"]; for i in 0..8 { lit_dec(i); esc(x) } w!["</p>"]; end(b, rest_only!(0, x, 1, x, 2, x, 3, x, 4, x, 5, x, 6, x, 7, x)) }
    h_21_rest_kinds(b) { let x = t(1); let k = bool_(); w!["<p><i>", [x], "</i>", [x], "<br>"]; if k { esc(x) } w!["&lt;", [x], "</p>"]; end(b, rest_only!(i!(x), frag!(x, br!()), if k { Some(x) } else { None }, '<', iter!([x]))) }
    h_21_none(b) { w!["none", "none", "none"]; end(b, frag!(none!(), none(), none![])) }
    h_21_generic(b) { let x = t(1); let n = u8_(); w!["<ul><li>", [x], "</li><li>"]; lit_dec(n as u32); w!["</li><li><b>", [x], "</b></li></ul>"]; match choose(3) { 0 => end(b, generic!(third = b!(x), first = x, second = n)), 1 => end(b, generic!(second = n, third = b!(x), first = x)), _ => end(b, generic(x, n, b!(x))) } }
    h_21_life(b) { let x = t(1); let y = t(1); w!["<div>", [x], [y], ",", [x], "4</div>"]; let l = [y, x]; end(b, life(x, &l, 4)) }
    h_21_keywords(b) { let x = t(1); let y = t(1); w![[x], ":", [y]]; match choose(2) { 0 => end(b, keywords!(r#for = y, r#type = x)), _ => end(b, keywords!(r#type = x, r#for = y)) } }
    h_21_mutable(b) { let n = u8_(); let x = t(1); lit_dec(n.wrapping_add(1) as u32); esc(x); lit("!"); end(b, mutable!(s = String::from(x), n = n)) }
    h_21_nested(b) { let x = t(1); let y = t(1); w!["<section><h1>", [x], "</h1><section><h1>t</h1>", [y], "</section><p>", [x], "</p></section>"]; end(b, nested!(nested!(y, title = "t"), title = x, rest_only!(x))) }
    h_21_nested_in_element(b) { let x = t(1); let y = t(1); w!["<main class=\"[", [y], "|b|", [x], "]\"><section><h1>", [x], "</h1><i>", [y], "</i></section></main>"]; end(b, main!(class = three!(c = x, b = "b", a = y), nested!(title = x, i!(y)))) }
    h_21_similar(b) { let x = t(1); let y = t(1); w![[x], ",", [y], ",1,2"]; end(b, similar!(x1 = "1", xx = y, _x = "2", x = x)) }
    h_21_defrest(b) { let x = t(1); let y = t(1); match choose(4) { 0 => { w![":"]; end(b, defrest!()) } 1 => { w![":", [x]]; end(b, defrest!(x)) } 2 => { w![[y], ":"]; end(b, defrest!(title = y)) } _ => { w!["<b>", [y], "</b>:", [x], [y]]; end(b, defrest!(x, title = b!(y), y)) } } }
    h_21_lots(b) { let v = u64_(); let f = |i: u32| (v >> (56 - 8 * i)) as u8; check(lots!(h = f(7), b = f(1), e = f(4), a = f(0), g = f(6), c = f(2), f = f(5), d = f(3)) == v, 20); check(lots!(d = f(3), f = f(5), c = f(2), g = f(6), a = f(0), e = f(4), b = f(1), h = f(7)) == v, 21); check(lots!(a = f(0), b = f(1), c = f(2), d = f(3), e = f(4), f = f(5), g = f(6), h = f(7)) == v, 22); end(b, ()) }
    h_21_unit(b) { unit!(); unit(); end(b, ()) }
    h_21_closure(b) { let x = t(1); w!["(", [x], ")"]; end(b, closure!(x = x, f = |s| format!("({})", s))) }
    h_21_temp(b) { let x = t(1); #[laby] fn shout(text: &str, #[default("d".len())] n: usize, #[rest(one)] r: String) -> impl Render { frag!(format!("{}{}", text, n), r) } fn one(a: core::fmt::Arguments) -> String { format!("[{}]", a) }
        w![[x], "!1", "[", [x], "2]"]; w![[x], ".1", "[", [x], "3]"]; let z = shout!(format_args!("{}{}", x, 2), text = (String::from(x) + "!").as_str()); end(b, frag!(z, shout!(n = vec![1].iter().count(), format_args!("{}{}", x, 3), text = &format!("{}.", x)))) }
    h_21_flow(b) { let x = t(1); let n = choose(4);
        fn f(n: usize, x: &'static str) -> Option<String> { let o = if n == 1 { None } else { Some(x) }; Some(render!(three!(c = { if n == 2 { return Some(String::from("out")) } "c" }, a = o?, b = match n { 3 => return None, _ => x }))) }
        match n { 0 => w!["[", [x], "|", [x], "|c]"], 2 => lit("out"), _ => {} } let r = f(n, x); check(r.is_none() == (n == 1 || n == 3), 24); end(b, r.map(laby::RenderRaw)) }
    h_21_flow_rest(b) { let x = t(1); let n = choose(3);
        fn f(n: usize, x: &'static str) -> Option<String> { let o = if n == 1 { None } else { Some(x) }; Some(render!(rest_last!("r", o?, b = "b", { if n == 2 { return None } "s" }, a = "a"))) }
        if n == 0 { w!["<div id=\"a\" class=\"b\">r", [x], "s</div>"] } let r = f(n, x); check(r.is_none() == (n != 0), 24); end(b, r.map(laby::RenderRaw)) }
    h_21_where(b) { let x = t(1); w![[x], [x], [x], [x]]; end(b, frag!(where_!(n = 3, v = x), where_!(v = x))) }
    h_21_mod(b) { let x = t(1); let y = t(1); w!["v", [x], [y], [x], "12", [y]]; use inner::{visible, crated}; end(b, frag!(visible!(a = x), visible!(b = y, a = x), crated!(1, a = y, 2))) }
    h_21_local(b) { let x = t(1); let y = t(1); #[laby] fn card(head: impl Render, #[default("std")] class: &'static str, #[rest] body: impl Render) -> impl Render { div!(class = class, h2!(head), body) }
        match choose(2) { 0 => { w!["<div class=\"std\"><h2>", [x], "</h2>", [y], "<br></div>"]; end(b, card!(y, br!(), head = x)) } _ => { w!["<div class=\"", [y], "\"><h2><i>", [x], "</i></h2></div>"]; end(b, card!(class = y, head = i!(x))) } } }
    h_21_default_fresh(b) { let x = t(1); #[laby] fn acc(#[default(Vec::new())] mut v: Vec<&'static str>, x: &'static str) -> impl Render { v.push(x); v.push("."); iter!(v) } w![[x], ".", [x], ".", "a", [x], "."]; end(b, frag!(acc!(x = x), acc!(x = x), acc!(x = x, v = vec!["a"]))) }
    h_21_default_not_evaluated(b) { static mut N: u8 = 0; fn d() -> u8 { unsafe { N += 1; N } } unsafe { N = 0 } #[laby] fn c(#[default(d())] n: u8) -> u8 { n } let v = u8_(); let x = c!(n = v); check(x == v && unsafe { N } == 0, 20); let y = c!(); check(y == 1 && unsafe { N } == 1, 21); end(b, ()) }
    h_21_once(b) { static mut N: u8 = 0; fn d(v: u8) -> u8 { unsafe { N += 1 } v } unsafe { N = 0 } let v = u8_(); check(lots!(h = d(0), b = d(0), e = d(0), a = d(v), g = d(0), c = d(0), f = d(0), d = d(0)) == (v as u64) << 56, 20); check(unsafe { N } == 8, 21); end(b, ()) }
    h_21_exprs(b) { let x = t(1); let k = bool_(); w!["["]; lit(if k { "1" } else { "0" }); w!["|", [x], "|z]"]; end(b, three!(c = { let z = "z"; z }, a = if k { "1" } else { "0" }, b = match k { _ => x })) }
    h_21_escape(b) { let x = t(3); w!["<div id=\"", [x], "\" class=\"&lt;\">", [x], "&quot;</div>"]; end(b, rest_last!(x, "\"", b = "<", a = x)) }
    h_21_struct(b) { let x = t(1); struct S { a: &'static str } #[laby] fn show(s: S, a: &'static str) -> impl Render { frag!(s.a, a) } w![[x], "1"]; end(b, show!(a = "1", s = S { a: x })) }
    h_21_assign_like(b) { let x = t(1); let a = u8_(); w!["true"]; #[laby] fn eq(v: bool) -> impl Render { v } end(b, eq!(v = a == a)) }
    h_21_rest_assign(b) { let a = u8_(); let c = u8_(); #[laby] fn r(#[rest] v: impl Render, x: u8) -> impl Render { frag!(v, x) } lit(if a == c { "true" } else { "false" }); lit(if a <= c { "true" } else { "false" }); w!["3"]; end(b, r!(a == c, x = 3, a <= c)) }
}
