//! wrappers
use crate::pre::*;
extern crate alloc;
use alloc::{borrow::Cow, string::String};
case! {
    h_10_opt_str(b) { let s = t(3); if bool_() { esc(s); end(b, Some(s)) } else { end(b, None::<&str>) } }
    h_10_opt_num(b) { let v = u8_(); if bool_() { lit_dec(v as u32); end(b, Some(v)) } else { end(b, None::<u8>) } }
    h_10_opt_opt(b) { let s = t(2); match choose(3) { 0 => end(b, None::<Option<&str>>), 1 => end(b, Some(None::<&str>)), _ => { esc(s); end(b, Some(Some(s))) } } }
    h_10_opt_unit(b) { end(b, if bool_() { Some(()) } else { None }) }
    h_10_opt_zst(b) { match choose(8) { 0 => { w!["&lt;z&gt;"]; end(b, Some(Zst)) } 1 => end(b, None::<Zst>), 2 => { w!["<hr>"]; end(b, Some(laby::hr!())) } 3 => { w!["<!DOCTYPE html>"]; end(b, Some(laby::DocType::HTML5)) } 4 => { w!["<p></p>"]; end(b, Some(laby::p!())) } 5 => { w!["&lt;z&gt;"]; end(b, Some(Some(Zst))) } 6 => { w!["<p a=\"k\">t</p>"]; end(b, Some(laby::p!("t", a = "k"))) } _ => end(b, Some([(); 0].into_iter().next())) } }
    h_10_opt_zst_flag(b) { let k = bool_(); if k { lit("&lt;z&gt;") } end(b, if k { Some(Zst) } else { None }) }
    h_10_opt_big(b) { let s = t(1); let v = u8_(); let k = bool_(); if k { w!["<p>", [s]]; lit_dec(v as u32); w![[s], "</p>"] } end(b, if k { Some(laby::p!(s, v, s)) } else { None }) }
    h_10_opt_niche(b) { let v = u8_(); let k = bool_(); if k && v > 0 { lit_dec(v as u32) } end(b, if k { core::num::NonZeroU8::new(v) } else { None }) }
    h_10_opt_bool(b) { let v = bool_(); if bool_() { lit(if v { "true" } else { "false" }); end(b, Some(v)) } else { end(b, None::<bool>) } }
    h_10_opt_char(b) { let c = any_char(); if bool_() { esc_char(c); end(b, Some(c)) } else { end(b, None::<char>) } }
    h_10_opt_string(b) { let s = t(3); if bool_() { esc(s); end(b, Some(String::from(s))) } else { end(b, None::<String>) } }
    h_10_unit(b) { end(b, ()) }
    h_10_bool(b) { let v = bool_(); lit(if v { "true" } else { "false" }); end(b, v) }
    h_10_str(b) { let s = t(4); esc(s); end(b, s) }
    h_10_string(b) { let s = t(4); esc(s); end(b, String::from(s)) }
    h_10_string_spare(b) { let s = t(3); esc(s); let mut x = String::with_capacity(40); x.push_str(s); end(b, x) }
    h_10_str_string(b) { let s = t(3); esc(s); esc(s); let mut b = b; s.render(&mut b); end(b, String::from(s)) }
    h_10_long_str(b) { let s = win(40); esc(s); esc(s); let mut b = b; String::from(s).render(&mut b); end(b, Some(s)) }
}
fn win(n: usize) -> &'static str {
    let s = bytes(n, 1);
    let at = choose(n / 8) * 8;
    for i in 0..n { if i != at { assume(s[i] == b'a' + (i % 26) as u8) } }
    let s = unsafe { core::str::from_utf8_unchecked(s) };
    utf8(s);
    s
}
/// a Cow whose owned and borrowed forms render differently
struct Both; struct Ref<'a>(&'a u8);
struct B(u8);
struct O(u8);
impl alloc::borrow::ToOwned for B { type Owned = O2; fn to_owned(&self) -> O2 { O2(B(self.0)) } }
struct O2(B);
impl core::borrow::Borrow<B> for O2 { fn borrow(&self) -> &B { &self.0 } }
impl<'a> Render for &'a B { fn render(self, b: &mut Buffer) { b.push_str("r"); self.0.render(b) } }
impl Render for O2 { fn render(self, b: &mut Buffer) { b.push_str("o"); self.0 .0.render(b) } }
case! {
    h_10_cow_user(b) { let v = u8_(); let x = B(v); if bool_() { lit("r"); lit_dec(v as u32); end(b, Cow::Borrowed(&x)) } else { lit("o"); lit_dec(v as u32); end(b, Cow::<B>::Owned(O2(x))) } }
    h_10_cow_opt(b) { let v = u8_(); let x = B(v); match choose(3) { 0 => { lit("r"); lit_dec(v as u32); end(b, Some(Cow::Borrowed(&x))) } 1 => { lit("o"); lit_dec(v as u32); end(b, Some(Cow::<B>::Owned(O2(x)))) } _ => end(b, None::<Cow<B>>) } }
    h_10_cow_text(b) { let s = t(3); esc(s); let x = Name(s); end(b, if bool_() { Cow::Borrowed(&x) } else { Cow::Owned(x.clone()) }) }
}
#[derive(Clone)] struct Name(&'static str);
impl Render for Name { fn render(self, b: &mut Buffer) { self.0.render(b) } }
impl<'a> Render for &'a Name { fn render(self, b: &mut Buffer) { String::from(self.0).render(b) } }
/// long texts: capacity, previous length, length, kind
#[no_mangle] pub fn h_10_big() {
    let b = start(p(0), p(1)); cpu(3); let s = long(0, p(2), 7, p(3), 1);
    esc(s);
    match choose(5) { 0 => finish(b, s), 1 => finish(b, String::from(s)), 2 => finish(b, Some(s)), 3 => finish(b, Some(String::from(s))), _ => finish(b, Cow::Owned::<Name2>(Name2O(String::from(s)))) }
}
struct Name2; struct Name2O(String);
impl alloc::borrow::ToOwned for Name2 { type Owned = Name2O; fn to_owned(&self) -> Name2O { Name2O(String::new()) } }
impl core::borrow::Borrow<Name2> for Name2O { fn borrow(&self) -> &Name2 { &Name2 } }
impl<'a> Render for &'a Name2 { fn render(self, _: &mut Buffer) { } }
impl Render for Name2O { fn render(self, b: &mut Buffer) { self.0.render(b) } }

struct Zst; impl Render for Zst { fn render(self, b: &mut Buffer) { "<z>".render(b) } }
