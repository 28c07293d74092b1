//! Interface to the checker, and what the harnesses share.
pub use laby::internal::Buffer;
pub use laby::Render;
extern "C-unwind" {
    fn vf_param(i: u32) -> u64;
    fn vf_u8() -> u8;
    fn vf_u16() -> u16;
    fn vf_u32() -> u32;
    fn vf_u64() -> u64;
    fn vf_bool() -> u8;
    fn vf_choose(n: u64) -> u64;
    fn vf_concretize(v: u64) -> u64;
    fn vf_input(len: usize, mis: usize) -> *const u8;
    fn vf_utf8(p: *const u8, n: usize);
    fn vf_ascii(p: *const u8, n: usize);
    fn vf_assume(c: u8);
    fn vf_assert(c: u8, code: u32);
    fn vf_spec_lit(p: *const u8, n: usize);
    fn vf_spec_esc(p: *const u8, n: usize);
    fn vf_spec_reset();
    fn vf_out(b: *const u8);
    fn vf_check(p: *const u8, n: usize, code: u32);
    fn vf_catch(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32;
    fn vf_allocs() -> u64;
    fn vf_live() -> u64;
    fn vf_mark(i: u32);
    fn vf_atomics(on: u32);
    fn vf_thread(t: u32);
    fn vf_block(p: *const u8) -> u64;
    fn vf_limit(k: u32);
    fn vf_large();
    fn vf_roomy();
    fn vf_cpu(k: u32);
}
/// job parameter
pub fn p(i: u32) -> usize { unsafe { vf_param(i) as usize } }
pub fn u8_() -> u8 { unsafe { vf_u8() } }
pub fn u16_() -> u16 { unsafe { vf_u16() } }
pub fn u32_() -> u32 { unsafe { vf_u32() } }
pub fn u64_() -> u64 { unsafe { vf_u64() } }
pub fn u128_() -> u128 { let a = u64_(); let b = u64_(); (b as u128) << 64 | a as u128 }
pub fn bool_() -> bool { unsafe { vf_bool() != 0 } }
/// a number below n, one path each
pub fn choose(n: usize) -> usize { unsafe { vf_choose(n as u64) as usize } }
pub fn assume(c: bool) { unsafe { vf_assume(c as u8) } }
pub fn check(c: bool, code: u32) { unsafe { vf_assert(c as u8, code) } }
/// a symbolic byte string of this length at this offset from a block boundary
pub fn bytes(n: usize, mis: usize) -> &'static [u8] { unsafe { core::slice::from_raw_parts(vf_input(n, mis), n) } }
/// a symbolic valid string of n bytes
pub fn text_at(n: usize, mis: usize) -> &'static str { unsafe { let q = vf_input(n, mis); vf_utf8(q, n); core::str::from_utf8_unchecked(core::slice::from_raw_parts(q, n)) } }
pub fn text(n: usize) -> &'static str { text_at(n, 1) }
pub fn ascii(n: usize) -> &'static str { unsafe { let q = vf_input(n, 1); vf_ascii(q, n); core::str::from_utf8_unchecked(core::slice::from_raw_parts(q, n)) } }
/// the specification: this text as it is / this text escaped
pub fn lit(s: &str) { unsafe { vf_spec_lit(s.as_ptr(), s.len()) } }
pub fn esc(s: &str) { unsafe { vf_spec_esc(s.as_ptr(), s.len()) } }
pub fn lit_bytes(s: &[u8]) { unsafe { vf_spec_lit(s.as_ptr(), s.len()) } }
pub fn spec_reset() { unsafe { vf_spec_reset() } }
pub fn out(b: &Buffer) { unsafe { vf_out(b as *const Buffer as *const u8) } }
pub fn check_str(s: &str, code: u32) { unsafe { vf_check(s.as_ptr(), s.len(), code) } }
pub fn check_bytes(s: &[u8], code: u32) { unsafe { vf_check(s.as_ptr(), s.len(), code) } }
pub fn allocs() -> u64 { unsafe { vf_allocs() } }
/// from here on the allocator has blocks of up to 16 GiB
/// the allocator has blocks of up to 16 MiB (all sizes known)
pub fn roomy() { unsafe { vf_roomy() } }
pub fn large() { unsafe { vf_large() } }
pub fn live() -> u64 { unsafe { vf_live() } }
pub fn mark(i: u32) { unsafe { vf_mark(i) } }
pub fn block(q: *const u8) -> usize { unsafe { vf_block(q) as usize } }
pub fn limit(k: usize) { unsafe { vf_limit(k as u32) } }
pub fn cpu(k: usize) { unsafe { vf_cpu(k as u32) } }
pub fn atomics(on: bool) { unsafe { vf_atomics(on as u32) } }
pub fn thread(t: u32) { unsafe { vf_thread(t) } }
/// false if the closure panicked
pub fn catch<F: FnOnce()>(f: F) -> bool {
    extern "C-unwind" fn go<F: FnOnce()>(q: *mut u8) { let f = unsafe { (*(q as *mut Option<F>)).take() }; if let Some(f) = f { f() } }
    let mut f = Some(f);
    unsafe { vf_catch(go::<F>, &mut f as *mut Option<F> as *mut u8) == 0 }
}
/// a buffer with this capacity that already holds `pre` bytes
pub fn start(cap: usize, pre: usize) -> Buffer {
    let mut b = Buffer::with_capacity(cap);
    for i in 0..pre { let s = ["#", "=", "x", "~"][i & 3]; b.push_str(s); lit(s); }
    b
}
/// render, compare with the specification, release
pub fn finish<R: Render>(mut b: Buffer, r: R) {
    out(&b);
    r.render(&mut b);
    check_str(b.as_str(), 1);
    check(b.len() <= b.capacity(), 3);
    drop(b);
    check(live() == 0, 2);
}
pub fn utf8(s: &str) { unsafe { vf_utf8(s.as_ptr(), s.len()) } }

/// a short symbolic text
pub fn t(n: usize) -> &'static str { text_at(n, 1) }
/// a symbolic char of any value
pub fn any_char() -> char { let v = u32_(); assume(v < 0x110000 && !(v >= 0xd800 && v < 0xe000)); unsafe { char::from_u32_unchecked(v) } }
/// its UTF-8 form, written independently
pub fn encode(c: char, o: &mut [u8; 4]) -> usize {
    let v = c as u32;
    if v < 0x80 { o[0] = v as u8; 1 }
    else if v < 0x800 { o[0] = 0xc0 | (v >> 6) as u8; o[1] = 0x80 | (v & 0x3f) as u8; 2 }
    else if v < 0x10000 { o[0] = 0xe0 | (v >> 12) as u8; o[1] = 0x80 | (v >> 6 & 0x3f) as u8; o[2] = 0x80 | (v & 0x3f) as u8; 3 }
    else { o[0] = 0xf0 | (v >> 18) as u8; o[1] = 0x80 | (v >> 12 & 0x3f) as u8; o[2] = 0x80 | (v >> 6 & 0x3f) as u8; o[3] = 0x80 | (v & 0x3f) as u8; 4 }
}
pub fn esc_char(c: char) { let mut o = [0; 4]; let n = encode(c, &mut o); esc(unsafe { core::str::from_utf8_unchecked(&o[..n]) }) }
pub fn lit_char(c: char) { let mut o = [0; 4]; let n = encode(c, &mut o); lit_bytes(&o[..n]) }
/// decimal text of a small number
pub fn lit_dec(v: u32) {
    let mut o = [0u8; 10]; let mut q = v; let mut n = 0;
    while n == 0 || q > 0 { o[9 - n] = (q % 10) as u8 + b'0'; q /= 10; n += 1; }
    lit_bytes(&o[10 - n..]);
}
/// render and compare
pub fn end<R: Render>(mut b: Buffer, r: R) {
    out(&b);
    r.render(&mut b);
    check_str(b.as_str(), 1);
    check(b.len() <= b.capacity(), 3);
}
/// one template program: capacity, previous length; everything it allocates is released at the end
#[macro_export]
macro_rules! case { ($($h:ident($b:ident) $body:block)*) => { $(
    #[no_mangle] pub fn $h() { { let $b = start(p(0), p(1)); $body }; check(live() == 0, 2); }
)* } }
/// the expected text: "as it is", (as it is), [escaped]
#[macro_export]
macro_rules! w {
    () => {};
    ($l:literal $(, $($r:tt)*)?) => {{ lit($l); $(w!($($r)*);)? }};
    ([$e:expr] $(, $($r:tt)*)?) => {{ esc($e); $(w!($($r)*);)? }};
    (($e:expr) $(, $($r:tt)*)?) => {{ lit($e); $(w!($($r)*);)? }};
}
/// one path for each value
pub fn each(v: usize) -> usize { unsafe { vf_concretize(v as u64) as usize } }
static LONG: [u8; 70016] = { let mut a = [0; 70016]; let mut i = 0; let mut s = 98765u32; while i < 70016 { s = s.wrapping_mul(1103515245).wrapping_add(12345); a[i] = b' ' + (s >> 16 & 63) as u8; i += 1 } a };
static mut ARENA: [[u8; 70016]; 2] = [[0; 70016]; 2];
/// a long text without periods; kind 0: every 13th byte special, 1: every 997th, 2: all, 3: none, 4: none in the last 5000;
/// 5, 6, 7: characters of two, four, three bytes with special ones in between.
/// `w` bytes at one of six places are symbolic
pub fn long(slot: usize, n: usize, off: usize, kind: usize, w: usize) -> &'static str {
    let v = unsafe { core::slice::from_raw_parts_mut((&raw mut ARENA as *mut u8).add(slot * 70016), n) };
    let (mut i, mut k) = (0, 0);
    let width = match kind { 5 => 2, 6 => 4, _ => 3 };
    if kind > 4 {
        let first = if kind == 5 { 1 } else if kind == 6 { 1 + off % 3 } else { off % 3 };
        while i < n {
            let u = match (kind, k % 61) { (_, 40) => &b"<&>'"[..width], (5, _) => "\u{e9}".as_bytes(), (6, _) => "\u{1f600}".as_bytes(), _ => "\u{20ac}".as_bytes() };
            if i < first || i + width > n { v[i] = b'z'; i += 1 } else { v[i..i + width].copy_from_slice(u); i += width; k += 1 }
        }
    }
    for i in 0..if kind > 4 { 0 } else { n } {
        let mut x = LONG[i + off];
        match kind { 1 => if i % 997 != 5 { x |= 0x40 }, 2 => x = b"<>&\"'"[i % 5], 3 => x |= 0x40, 4 => if i + 5000 > n { x |= 0x40 }, _ => {} }
        v[i] = x;
    }
    if w > 0 && n > 0 {
        let at = [n.saturating_sub(w), 0, n / 2, n & !31, n.saturating_sub(17), n.saturating_sub(33)][choose(6)];
        // whole characters give way
        let (mut a, mut e) = (at, (at + w).min(n));
        while a < n && v[a] & 0xc0 == 0x80 { a -= 1 }
        while e < n && v[e] & 0xc0 == 0x80 { e += 1 }
        for k in a..e { v[k] = b'q' }
        for k in at..(at + w).min(n) { let x = u8_(); assume(x < 128); v[k] = x }
    }
    unsafe { core::str::from_utf8_unchecked(v) }
}
