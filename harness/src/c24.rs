//! appending and composing
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{string::String, format, vec, vec::Vec};
/// the same text alone, appended, and through render!
fn one(k: usize, x: &'static str, y: &'static str, b: &mut Buffer) { match k { 0 => p!(x).render(b), 1 => frag!(x, y).render(b), 2 => x.render(b), 3 => img!(alt = y).render(b), 4 => 7u8.render(b), 5 => raw!(x).render(b), 6 => DocType::HTML5.render(b), 7 => ul!(class = classes!(x, "a"), iter!(", ", [x, y])).render(b), 8 => format_args!("{}-{}", x, y).render(b), 9 => '<'.render(b), 10 => Some(b!(y)).render(b), 11 => true.render(b), _ => ().render(b) } }
fn want(k: usize, x: &'static str, y: &'static str) { match k { 0 => w!["<p>", [x], "</p>"], 1 => w![[x], [y]], 2 => esc(x), 3 => w!["<img alt=\"", [y], "\">"], 4 => lit("7"), 5 => lit(x), 6 => lit("<!DOCTYPE html>"), 7 => w!["<ul class=\"", [x], " a\">", [x], ", ", [y], "</ul>"], 8 => w![[x], "-", [y]], 9 => lit("&lt;"), 10 => w!["<b>", [y], "</b>"], 11 => lit("true"), _ => {} } }
const N: usize = 13;
/// capacity, previous length, how many after one another
#[no_mangle] pub fn h_24_seq() {
    { let mut b = start(p(0), p(1)); let x = t(2); let y = t(1); for _ in 0..p(2) { let k = choose(N); want(k, x, y); out(&b); one(k, x, y, &mut b); check_str(b.as_str(), 1); check(b.len() <= b.capacity(), 3); } }
    check(live() == 0, 2);
}
/// into a buffer that was used before and cleared
#[no_mangle] pub fn h_24_reused() {
    { let mut b = Buffer::with_capacity(p(0)); let x = t(2); let y = t(1); let k = choose(N); one(k, "a<", "\"", &mut b); b.clear(); let k = choose(N); want(k, x, y); out(&b); one(k, x, y, &mut b); check_str(b.as_str(), 1); }
    check(live() == 0, 2);
}
/// alone and appended
#[no_mangle] pub fn h_24_alone() {
    { let x = t(2); let y = t(1); let k = choose(N); let mut a = Buffer::new(); one(k, x, y, &mut a); let mut b = Buffer::with_capacity(p(0)); b.push_str("pre<>&"); one(k, x, y, &mut b); check(b.len() == 6 + a.len(), 20); want(k, x, y); check_str(a.as_str(), 1); spec_reset(); lit("pre<>&"); want(k, x, y); check_str(b.as_str(), 1); }
    check(live() == 0, 2);
}
macro_rules! text { ($($h:ident $body:block)*) => { $( #[no_mangle] pub fn $h() { { let s: String = $body; check_str(&s, 1); check(s.len() <= s.capacity(), 3); } check(live() == 0, 2); } )* } }
text! {
    h_24_render_one { let x = t(3); w![[x]]; render!(x) }
    h_24_render_elem { let x = t(2); w!["<p>", [x], "</p>"]; render!(p!(x)) }
    h_24_render_two { let x = t(2); let y = t(2); w![[x], [y]]; render!(x, y) }
    h_24_render_many { let x = t(1); let y = t(1); w!["<!DOCTYPE html><html>", [x], "</html>a", [y], "1", "&lt;", (x), "<br>"]; render!(DocType::HTML5, html!(x), "a", y, 1, '<', raw!(x), br!()) }
    h_24_render_trailing { let x = t(1); let y = t(1); w![[x], [y]]; render!(x, y,) }
    h_24_render_trailing_one { let x = t(1); w!["<p>", [x], "</p>"]; render!(p!(x),) }
    h_24_render_none { render!() }
    h_24_render_empty { render!("") }
    h_24_render_unit { render!(()) }
    h_24_render_nested { let x = t(1); w!["<p>&lt;b&gt;"]; let mut e = Buffer::new(); x.render(&mut e); esc(&e.into_string()); w!["&lt;/b&gt;</p>"]; render!(p!(render!(b!(x)))) }
    h_24_render_raw_nested { let x = t(2); w!["<p><b>", [x], "</b></p>"]; render!(p!(raw!(render!(b!(x))))) }
    h_24_render_big { let x = t(2); let big = "0123456789abcdef".repeat(1100); for _ in 0..1 { lit("<p>"); lit(&big); esc(x); lit(&big); lit("</p>") } render!(p!(raw!(big.as_str()), x, raw!(big.as_str()))) }
    h_24_render_big_escaped { let x = t(1); let big = "<&>".repeat(1000); let mut e = String::new(); for _ in 0..1000 { e.push_str("&lt;&amp;&gt;") } w!["<p>", (&e), [x], "</p>"]; render!(p!(big, x)) }
    h_24_render_edge { let x = t(2); let n = 16384 - 3 - choose(8); let big = "a".repeat(n); w!["<p>", (&big), [x], "</p>"]; render!(p!(raw!(big), x)) }
    h_24_render_edge_int { let n = 16384 - choose(6); let v = u8_(); let big = "a".repeat(n); lit(&big); lit_dec(v as u32); render!(raw!(big), v) }
    h_24_render_edge_char { let n = 16384 - choose(7); let c = any_char(); let big = "a".repeat(n); lit(&big); esc_char(c); render!(raw!(big), c) }
    h_24_render_expr { let x = t(1); let k = bool_(); if k { w![[x]] } else { w!["n"] } render!(if k { x } else { "n" }) }
    h_24_render_var { let x = t(1); w!["<p>", [x], "</p>"]; let n = p!(x); render!(n) }
    h_24_render_ref { let x = t(2); w![[x]]; let s = String::from(x); render!(&s[..]) }
    h_24_render_owned { let x = t(2); w![[x]]; render!(String::from(x)) }
    h_24_render_twice { let x = t(1); let a = render!(p!(x)); let b = render!(p!(x)); check(a == b, 20); w!["<p>", [x], "</p>", "<p>", [x], "</p>"]; a + &b }
    h_24_doctype { w!["<!DOCTYPE html>"]; render!(DocType::HTML5) }
    h_24_doctype_page { let x = t(2); w!["<!DOCTYPE html><html><body>", [x], "</body></html>"]; render!(DocType::HTML5, html!(body!(x))) }
    h_24_doctype_in { w!["<p><!DOCTYPE html></p><!DOCTYPE html>"]; render!(p!(DocType::HTML5), DocType::HTML5) }
    h_24_into_more { let x = t(2); let y = t(1); w![[x], "|", (y)]; let mut s = render!(x); s.push('|'); s.push_str(y); s }
    h_24_path { let x = t(1); w!["<p>", [x], "</p>", "q"]; laby::render!(laby::p!(x), "q") }
    h_24_manual { let x = t(1); let y = t(1); w!["<p>", [x], "</p>", "+", [y]]; let mut b = Buffer::new(); p!(x).render(&mut b); b.push('+'); y.render(&mut b); b.into_string() }
    h_24_append_buffer { let x = t(1); let y = t(1); w!["<p>", [x], "</p><b>", [y], "</b>"]; let mut b = Buffer::new(); p!(x).render(&mut b); let mut c = Buffer::with_capacity(3); b!(y).render(&mut c); b += c.as_str(); b.into_string() }
}
