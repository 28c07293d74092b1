//! escape(): n, misalignment, capacity, previous length, cpu + 1, limit + 1
use crate::pre::*;
pub fn setup() { if p(4) > 0 { cpu(p(4) - 1); } if p(5) > 0 { limit(p(5) - 1); } }
#[no_mangle]
pub fn h_escape() {
    setup();
    let s = text_at(p(0), p(1));
    let mut b = start(p(2), p(3));
    esc(s);
    out(&b);
    laby::internal::escape(s, &mut b);
    check_str(b.as_str(), 1);
    drop(b);
    check(live() == 0, 2);
}
/// the form that returns a string
#[no_mangle]
pub fn h_escape_str() {
    setup();
    let s = text_at(p(0), p(1));
    esc(s);
    let r = laby::internal::escape_str(s);
    check_str(&r, 1);
    drop(r);
    check(live() == 0, 2);
}
/// escaping two strings one after another into one buffer
#[no_mangle]
pub fn h_escape_twice() {
    setup();
    let s = text_at(p(0), p(1)); let t = text_at(p(6), 5);
    let mut b = start(p(2), p(3));
    esc(s); esc(t);
    out(&b);
    laby::internal::escape(s, &mut b);
    laby::internal::escape(t, &mut b);
    check_str(b.as_str(), 1);
    drop(b);
    check(live() == 0, 2);
}
/// a text of `n` bytes of which a few, anywhere, are symbolic
pub fn window(n: usize, mis: usize, w: usize) -> &'static str {
    let base = bytes(n, mis);
    let at = choose(n - w + 1);
    for i in 0..n { if i < at || i >= at + w { assume(base[i] == b"abcdefghijklmnopqrstuvwxyz"[i % 26]); } }
    let s = unsafe { core::str::from_utf8_unchecked(base) };
    utf8(s);
    s
}
/// a text without special characters
#[no_mangle]
pub fn h_escape_plain() {
    setup();
    let s = bytes(p(0), p(1));
    for i in 0..p(0) { assume(s[i] == b"abcdefghijklmnopqrstuvwxyz"[i % 26]); }
    let s = unsafe { core::str::from_utf8_unchecked(s) };
    let mut b = start(p(2), p(3));
    esc(s);
    out(&b);
    laby::internal::escape(s, &mut b);
    check_str(b.as_str(), 1);
    drop(b);
    check(live() == 0, 2);
}
#[no_mangle]
pub fn h_escape_win() {
    setup();
    let s = window(p(0), p(1), p(6));
    let mut b = start(p(2), p(3));
    esc(s);
    out(&b);
    laby::internal::escape(s, &mut b);
    check_str(b.as_str(), 1);
    drop(b);
    check(live() == 0, 2);
}
#[no_mangle]
pub fn h_escape_str_win() {
    setup();
    let s = window(p(0), p(1), p(6));
    esc(s);
    let r = laby::internal::escape_str(s);
    check_str(&r, 1);
    drop(r);
    check(live() == 0, 2);
}
/// long texts: n, offset, capacity, previous length, cpu + 1, 0, kind; two bytes at a chosen place are symbolic
#[no_mangle]
pub fn h_escape_long() {
    setup();
    let s = long(0, p(0), p(1), p(6), 2);
    let mut b = start(p(2), p(3));
    esc(s);
    out(&b);
    laby::internal::escape(s, &mut b);
    check_str(b.as_str(), 1);
    check(b.len() <= b.capacity(), 3);
    drop(b);
    check(live() == 0, 2);
}
