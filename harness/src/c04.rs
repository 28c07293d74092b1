//! operations on a buffer
use crate::pre::*;
use core::fmt::Write;
pub const OPS: usize = 11;
/// what happens to the buffer: one operation with symbolic contents
pub fn op(b: Buffer, k: usize, m: usize) -> Buffer {
    let mut b = b;
    let s = || { let s = text_at(choose(m + 1), 1); lit(s); s };
    match k {
        0 => b.push_str(s()),
        1 => { let c = any_char(); lit_char(c); b.push(c) }
        2 => { let v = s(); b = b + v }
        3 => b += s(),
        4 => { let v = s(); write!(b, "{}", v).unwrap() }
        5 => { let v = s(); check(b.write_str(v).is_ok(), 10) }
        6 => { let c = any_char(); lit_char(c); check(b.write_char(c).is_ok(), 10) }
        7 => { let n = [0, 1, 2, 5, 17][choose(5)]; b.reserve(n); check(b.capacity() - b.len() >= n, 11) }
        8 => { let c0 = b.capacity(); b.clear(); spec_reset(); out(&b); check(b.capacity() == c0 && b.len() == 0 && b.is_empty(), 12) }
        9 => { let c = b.clone(); check_same(&b, &c); b = c; out(&b) }
        10 => { let c = b.clone(); drop(c) }
        _ => {}
    }
    b
}
fn check_same(a: &Buffer, b: &Buffer) { check(a.len() == b.len(), 13); check(a.len() == 0 || a.as_mut_ptr() != b.as_mut_ptr(), 14); }
fn done(b: &Buffer) {
    check_str(b.as_str(), 1);
    check(b.len() == b.as_str().len(), 15);
    check(b.is_empty() == (b.len() == 0), 16);
    check(b.len() <= b.capacity(), 3);
    if b.capacity() > 0 { check(block(b.as_mut_ptr()) == b.capacity(), 17); }
}
/// number of operations, largest text, capacity, previous length, first operation + 1, last operation + 1
#[no_mangle] pub fn h_ops() {
    let mut b = start(p(2), p(3));
    out(&b);
    for i in 0..p(0) {
        let k = if i == 0 && p(4) > 0 { p(4) - 1 } else if i + 1 == p(0) && p(5) > 0 { p(5) - 1 } else { choose(OPS) };
        b = op(b, k, p(1));
        done(&b);
    }
    drop(b);
    check(live() == 0, 2);
}
/// append texts of these lengths: capacity, previous, lengths...
#[no_mangle] pub fn h_push() {
    let mut b = start(p(0), p(1));
    out(&b);
    for i in 2..6 { if p(i) > 0 { let s = text_at(p(i) - 1, i as usize); lit(s); let l = b.len(); b.push_str(s); check(b.len() == l + s.len(), 18); } }
    done(&b);
    drop(b);
    check(live() == 0, 2);
}
/// formatted writes
#[no_mangle] pub fn h_fmt() {
    let mut b = start(p(0), p(1));
    out(&b);
    let s = text_at(p(2), 1); let c = any_char(); let v = u8_();
    lit("a<"); lit(s); lit("|"); lit_char(c); lit("|"); lit_dec(v as u32);
    write!(b, "a<{}|{}|{}", s, c, v).unwrap();
    done(&b);
    drop(b);
    check(live() == 0, 2);
}
/// long texts of many lengths, each at another place of a text without periods: capacity, previous, how many, first length's index
static LONG: [u8; 70000] = { let mut a = [0; 70000]; let mut i = 0; let mut s = 12345u32; while i < 70000 { s = s.wrapping_mul(1103515245).wrapping_add(12345); a[i] = b' ' + (s >> 16 & 63) as u8; i += 1 } a };
static SIZES: [usize; 24] = [3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 1024, 4096, 4097, 16385, 33000, 65537];
#[no_mangle] pub fn h_long() {
    let mut b = start(p(0), p(1));
    out(&b);
    for i in 0..p(2) {
        let n = SIZES[if i == 0 { p(3) } else { choose(SIZES.len()) }];
        let s = unsafe { core::str::from_utf8_unchecked(&LONG[i * 37..i * 37 + n]) };
        lit(s);
        match (i + p(3)) % 4 { 0 => b.push_str(s), 1 => b += s, 2 => { write!(b, "{}", s).unwrap() } _ => { b = b + s } }
        b.push('é'); lit("é");
        check(b.len() <= b.capacity(), 3); check(block(b.as_mut_ptr()) == b.capacity(), 17);
    }
    done(&b);
    let c = b.clone(); check_str(c.as_str(), 19); check_same(&b, &c);
    drop(b);
    check_str(c.as_str(), 19); drop(c);
    check(live() == 0, 2);
}
