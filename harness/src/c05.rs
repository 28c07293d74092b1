//! reserving
use crate::pre::*;
use core::fmt::Write;
fn ok(b: &Buffer, n: usize, cap0: usize, len0: usize) {
    check(b.len() == len0, 10);
    check(b.capacity() >= cap0, 11);
    check(b.capacity() >= b.len(), 12);
    check(b.capacity() - b.len() >= n, 13);
    if b.capacity() > 0 { check(block(b.as_mut_ptr()) == b.capacity(), 14); }
    check_str(b.as_str(), 1);
}
/// small requests, all of them: capacity, previous length, largest request
#[no_mangle] pub fn h_reserve() {
    let mut b = start(p(0), p(1));
    let (c, l) = (b.capacity(), b.len());
    let n = u8_() as usize; assume(n <= p(2));
    if p(3) == 0 { b.reserve(n) } else { unsafe { b.reserve_small(n) } }
    ok(&b, n, c, l);
    let n = each(n);
    // now it takes them without another allocation
    let a = allocs();
    let s = "0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz";
    let k = if n > 70 { 70 } else { n };
    let q = b.as_mut_ptr();
    let how = choose(4);
    for i in 0..3 {
        let (x, y) = (k * i / 3, k * (i + 1) / 3);
        lit(&s[x..y]);
        match (how + i) % 4 { 0 => b.push_str(&s[x..y]), 1 => b += &s[x..y], 2 => b = b + &s[x..y], _ => write!(b, "{}", &s[x..y]).unwrap() }
    }
    check(allocs() == a && b.as_mut_ptr() == q, 15);
    check_str(b.as_str(), 1);
    drop(b);
    check(live() == 0, 2);
}
/// with memory enough, requests up to this one are granted
const GIB8: usize = 1 << 33;
fn tail() -> &'static str { "again" }
/// requests no allocator can satisfy: capacity, previous length
#[no_mangle] pub fn h_huge() {
    let mut b = start(p(0), p(1));
    let (c, l) = (b.capacity(), b.len());
    if p(2) == 2 { large() }
    let n = u64_() as usize; assume(n > 1 << 20);
    if p(2) == 1 { assume(n > isize::MAX as usize) }
    let done = catch(|| { b.reserve(n) });
    if n > isize::MAX as usize { check(!done, 16); }
    if p(2) == 2 && n <= GIB8 { check(done, 21); }
    // it can only have come back if it has the room
    if done { ok(&b, n, c, l); } else { check(b.capacity() == c && b.len() == l, 17); check_str(b.as_str(), 1); b.push_str("more"); lit("more"); check_str(b.as_str(), 1); }
    drop(b);
    check(live() == 0, 2);
}
/// room for gigabytes, twice: capacity, previous length
#[no_mangle] pub fn h_vast() {
    large();
    let mut b = start(p(0), p(1));
    for i in 0..2 {
        let (c, l) = (b.capacity(), b.len());
        let n = u64_() as usize; if c < 1 << 20 { assume(n > 1 << 20) }
        let done = catch(|| { b.reserve(n) });
        if n > isize::MAX as usize { check(!done, 16); }
        if n <= GIB8 && c <= GIB8 - n && c <= GIB8 / 2 { check(done, 21); }
        if done { ok(&b, n, c, l); } else { check(b.capacity() == c && b.len() == l, 17); check_str(b.as_str(), 1); }
        b.push_str("more"); lit("more");
    }
    check_str(b.as_str(), 1);
    drop(b);
    check(live() == 0, 2);
}
/// with_capacity
#[no_mangle] pub fn h_with() {
    let n = u64_() as usize;
    if p(1) == 2 { large() }
    if p(1) == 0 { assume(n <= p(0)) } else { assume(n > 1 << 20) }
    let mut b = None;
    let done = catch(|| { b = Some(Buffer::with_capacity(n)) });
    if n > isize::MAX as usize { check(!done, 16); }
    if n <= p(0) || p(1) == 2 && n <= GIB8 { check(done, 18); }
    if let Some(b) = &mut b { let k = b.capacity(); b.clear(); check(b.capacity() == k, 22); check(b.capacity() >= n && b.len() == 0, 19); if b.capacity() > 0 { check(block(b.as_mut_ptr()) == b.capacity(), 14); } }
    drop(b);
    check(live() == 0, 2);
}
/// several requests: capacity, previous, how many, largest
#[no_mangle] pub fn h_series() {
    let mut b = start(p(0), p(1));
    for i in 0..p(2) {
        let (c, l) = (b.capacity(), b.len());
        let n = u8_() as usize; assume(n <= p(3));
        b.reserve(n);
        ok(&b, n, c, l);
        let k = choose(2); if k == 1 { let s = &"abcdefgh"[..if n > 8 { 8 } else { n }]; lit(s); b.push_str(s); }
    }
    drop(b);
    check(live() == 0, 2);
}
/// appending keeps the allocator's view right: capacity, previous, text length
#[no_mangle] pub fn h_grow() {
    let mut b = start(p(0), p(1));
    for i in 0..3 {
        let (c, l) = (b.capacity(), b.len());
        let s = text_at(p(2) + i, 1);
        lit(s);
        match choose(2) { 0 => b.push_str(s), _ => { let c = any_char(); b.push_str(s); b.push(c); lit_char(c) } }
        check(b.capacity() >= c && b.len() >= l + s.len() && b.capacity() >= b.len(), 20);
        check(b.capacity() == 0 || block(b.as_mut_ptr()) == b.capacity(), 14);
        check_str(b.as_str(), 1);
    }
    drop(b);
    check(live() == 0, 2);
}
/// larger requests, a list of them, filled to the brim: capacity, previous length, kind
static BIG: [u8; 1 << 16] = [b'z'; 1 << 16];
#[no_mangle] pub fn h_large() {
    let l = [71, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 100000];
    let n = l[choose(l.len())];
    let mut b = start(p(0), p(1));
    let (c, l) = (b.capacity(), b.len());
    match p(2) { 0 => b.reserve(n), 1 => unsafe { b.reserve_small(n) }, _ => { b.reserve(n / 2); let (c, l) = (b.capacity(), b.len()); ok(&b, n / 2, c, l); b.reserve(n) } }
    ok(&b, n, c, l);
    let a = allocs(); let q = b.as_mut_ptr();
    let mut r = n;
    while r > 0 { let k = if r > BIG.len() { BIG.len() } else { r }; let s = unsafe { core::str::from_utf8_unchecked(&BIG[..k]) }; b.push_str(s); lit(s); r -= k }
    check(allocs() == a && b.as_mut_ptr() == q, 15);
    // one more byte
    b.push('!'); lit("!");
    check(b.capacity() >= b.len(), 12); check(block(b.as_mut_ptr()) == b.capacity(), 14);
    check_str(b.as_str(), 1);
    // emptied, it keeps its room
    let (k, q) = (b.capacity(), b.as_mut_ptr());
    b.clear(); spec_reset();
    check(b.is_empty() && b.capacity() == k && b.as_mut_ptr() == q, 22);
    b.push_str(tail()); lit(tail()); check_str(b.as_str(), 1);
    drop(b);
    check(live() == 0, 2);
    let b = Buffer::with_capacity(n); check(b.capacity() >= n && b.len() == 0 && block(b.as_mut_ptr()) == b.capacity(), 19); drop(b);
    check(live() == 0, 2);
}
