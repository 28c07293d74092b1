//! conversions
use crate::pre::*;
extern crate alloc;
use alloc::string::String;
fn own(b: &Buffer, code: u32) { check(b.capacity() >= b.len(), code); if b.capacity() > 0 { check(block(b.as_mut_ptr()) == b.capacity(), code + 1); } }
fn own_s(s: &String, code: u32) { check(s.capacity() >= s.len(), code); if s.capacity() > 0 { check(block(s.as_ptr()) == s.capacity(), code + 1); } }
fn string(cap: usize, s: &str) -> String { let mut r = String::with_capacity(cap); r.push_str(s); r }
/// String -> Buffer -> append -> String -> append: spare capacity, length, appended, appended later
#[no_mangle] pub fn h_from_string() {
    { let s = text_at(p(1), 1); let x = text_at(p(2), 2); let y = text_at(p(3), 3);
    lit(s);
    let mut b = Buffer::from(string(p(0) + p(1), s));
    own(&b, 10); check_str(b.as_str(), 1);
    lit(x); b.push_str(x); own(&b, 12); check_str(b.as_str(), 1);
    let mut t = b.into_string();
    own_s(&t, 14); check_str(&t, 1);
    lit(y); t.push_str(y); own_s(&t, 16); check_str(&t, 1);
    let b = Buffer::from(t); own(&b, 18); check_str(b.as_str(), 1); }
    check(live() == 0, 2);
}
/// &str -> Buffer: length, appended
#[no_mangle] pub fn h_from_str() {
    { let s = text_at(p(0), 1); let x = text_at(p(1), 2);
    lit(s);
    let mut b = Buffer::from(s);
    own(&b, 10); check_str(b.as_str(), 1);
    check(b.len() == 0 || b.as_str().as_ptr() != s.as_ptr(), 11);
    lit(x); b.push_str(x); check_str(b.as_str(), 1);
    let c = b.clone(); own(&c, 12); check_str(c.as_str(), 1);
    let t = b.into_string(); own_s(&t, 14); check_str(&t, 1);
    drop(t); check_str(c.as_str(), 1); }
    check(live() == 0, 2);
}
/// clone, then change one or the other: capacity, previous, appended to the original, appended to the copy
#[no_mangle] pub fn h_clone() {
    { let b0 = text_at(p(1), 1); let x = text_at(p(2), 2); let y = text_at(p(3), 3);
    let mut b = Buffer::with_capacity(p(0)); b.push_str(b0);
    let mut c = b.clone();
    own(&c, 10); own(&b, 12);
    let order = choose(3);
    if order == 0 { b.push_str(x); c.push_str(y); } else if order == 1 { c.push_str(y); b.push_str(x); } else { b.clear(); c.push_str(y); b.push_str(x); }
    spec_reset(); if order != 2 { lit(b0); } lit(x); check_str(b.as_str(), 1);
    spec_reset(); lit(b0); lit(y); check_str(c.as_str(), 1);
    if choose(2) == 0 { drop(b); check_str(c.as_str(), 1); let t = c.into_string(); check_str(&t, 1); own_s(&t, 14); }
    else { drop(c); spec_reset(); if order != 2 { lit(b0); } lit(x); check_str(b.as_str(), 1); let t = b.into_string(); check_str(&t, 1); own_s(&t, 14); } }
    check(live() == 0, 2);
}
/// clear and go on: capacity, previous, appended
#[no_mangle] pub fn h_clear() {
    { let s = text_at(p(1), 1); let x = text_at(p(2), 2);
    let mut b = Buffer::with_capacity(p(0)); b.push_str(s);
    let (q, k) = (b.as_mut_ptr(), b.capacity());
    b.clear();
    check(b.is_empty() && b.len() == 0 && b.as_str().len() == 0, 10);
    check(b.capacity() == k && b.as_mut_ptr() == q, 11);
    if choose(2) == 1 { let c = b.clone(); check(c.is_empty(), 12); own(&c, 13); let t = c.into_string(); check(t.is_empty(), 15); }
    lit(x); b.push_str(x); check_str(b.as_str(), 1);
    b.clear(); b.clear(); spec_reset(); check_str(b.as_str(), 1);
    let t = b.into_string(); check(t.is_empty(), 16); own_s(&t, 17); }
    check(live() == 0, 2);
}
/// a filled buffer becomes a string at once: capacity, length
#[no_mangle] pub fn h_into() {
    { let b = start(p(0), p(1)); let s = text_at(p(2), 1); lit(s);
    let mut b = b; b += s;
    let k = b.capacity();
    let (q, a) = (b.as_mut_ptr(), allocs());
    let mut t = b.into_string(); own_s(&t, 10); check_str(&t, 1);
    t.push('<'); lit("<"); check_str(&t, 1); own_s(&t, 12);
    t.shrink_to_fit(); check_str(&t, 1); }
    check(live() == 0, 2);
}
/// large texts: spare room, kind
static BIG: [u8; 1 << 17] = [b'z'; 1 << 17];
fn fill(b: &mut String, x: &str, n: usize) { let mut r = n - x.len(); while r > 0 { let k = if r > BIG.len() { BIG.len() } else { r }; b.push_str(unsafe { core::str::from_utf8_unchecked(&BIG[..k]) }); r -= k } b.push_str(x); }
fn spec(x: &str, n: usize) { spec_reset(); let mut r = n - x.len(); while r > 0 { let k = if r > BIG.len() { BIG.len() } else { r }; lit(unsafe { core::str::from_utf8_unchecked(&BIG[..k]) }); r -= k } lit(x); }
#[no_mangle] pub fn h_big() {
    let l = [15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 131072, 131073, 200000, (1 << 20) + 1, (1 << 21) + 3];
    let (k, m) = (p(1) & 15, p(1) >> 4);
    roomy();
    let n = if m == 0 { l[choose(l.len() - 2)] } else { l[l.len() - m] };
    { let x = text_at(2, 1);
    let mut s = String::with_capacity(n + p(0)); fill(&mut s, x, n); spec(x, n);
    match k {
        0 => { let b = Buffer::from(s); own(&b, 10); check_str(b.as_str(), 1); let t = b.into_string(); own_s(&t, 14); check_str(&t, 1) }
        1 => { let b = Buffer::from(&s[..]); own(&b, 10); check_str(b.as_str(), 1); check(b.as_str().as_ptr() != s.as_ptr(), 11); drop(s); check_str(b.as_str(), 1) }
        2 => { let mut b = Buffer::from(s); let c = b.clone(); own(&c, 10); check_str(c.as_str(), 1); b.push('!'); b.clear(); check(b.is_empty(), 11); drop(b); check_str(c.as_str(), 1); let t = c.into_string(); own_s(&t, 14); check_str(&t, 1) }
        3 => { let mut b = Buffer::with_capacity(p(0)); b.push_str(&s); own(&b, 10); check_str(b.as_str(), 1); b.clear(); b += &s[..]; own(&b, 12); check_str(b.as_str(), 1); let b = b + "!"; lit("!"); check_str(b.as_str(), 1) }
        4 => { let mut b = Buffer::new(); b.push_str("a"); let k = choose(2); if k == 0 { b.push_str(&s); } else { laby::Render::render(laby::raw!(&s[..]), &mut b); } check(b.len() == n + 1 && &b.as_str()[..1] == "a", 10); let t = b.into_string(); own_s(&t, 14); check_str(&t[1..], 1) }
        _ => { cpu(k - 4); let mut b = Buffer::with_capacity(p(0)); laby_common::internal::escape(unsafe { core::str::from_utf8_unchecked(&s.as_bytes()[..n - 2]) }, &mut b); let l = b.len(); check(l == n - 2, 10); b.push_str(x); own(&b, 12); check_str(b.as_str(), 1) }
    } }
    check(live() == 0, 2);
}
