//! integers
use crate::pre::*;
use core::num::*;
/// a number's decimal digits and its magnitude
pub struct Num { pub text: [u8; 41], pub n: usize, pub mag: u128 }
impl Num {
    fn push2(&mut self, pair: u128) {
        self.text[self.n] = (pair / 10) as u8 + b'0'; self.n += 1;
        self.text[self.n] = (pair % 10) as u8 + b'0'; self.n += 1;
        self.mag = self.mag.wrapping_mul(100).wrapping_add(pair);
    }
    fn push(&mut self, d: u128) {
        self.text[self.n] = d as u8 + b'0'; self.n += 1;
        self.mag = self.mag.wrapping_mul(10).wrapping_add(d);
    }
}
/// Numbers with d digits, none above max: the digit pairs from `at` on, `width` of them, are symbolic (the leading one
/// without zeros in front), the others are taken from `fill`: 0 zeros (1 in front), 1 nines, 2 the maximum's own digits,
/// 3.. a pseudo-random sequence.
pub fn number(d: usize, at: usize, width: usize, fill: usize, max: u128) -> Num {
    let mut x = Num { text: [0; 41], n: 0, mag: 0 };
    let np = (d + 1) / 2;
    let mut md = 0; let mut m = max; while m > 0 { m /= 10; md += 1; }
    let mut mp = [0u128; 20]; let mut m = max; let mut t = 0;
    while m > 0 { mp[t] = m % 100; m /= 100; t += 1; }
    let mut seed = (fill as u32).wrapping_mul(2654435761);
    let mut tight = d == md; // all pairs so far are the maximum's
    for i in 0..np {
        let top = mp[np - 1 - i];
        let one = i == 0 && d % 2 == 1;
        let lo = if i > 0 || d == 1 { 0 } else if one { 1 } else { 10 };
        let hi = if one { 9 } else { 99 };
        let v = if i >= at && i < at + width {
            let v = u8_() as u128;
            assume(v >= lo && v <= hi);
            if tight { assume(v <= top); if choose(2) == 0 { assume(v < top); tight = false } else { assume(v == top) } }
            v
        } else {
            seed = seed.wrapping_mul(1664525).wrapping_add(1013904223);
            let v = match fill { 0 => if i == 0 { lo } else { 0 }, 1 => hi, 2 => if d == md { top } else { hi }, _ => { let r = (seed >> 16) as u128 % 100; if one { 1 + r % 9 } else if i == 0 { 10 + r % 90 } else { r } } };
            let v = if tight && v > top { top } else { v };
            if v < top { tight = false }
            v
        };
        if one { x.push(v) } else { x.push2(v) }
    }
    x
}
fn go<R: Render>(x: &Num, neg: bool, r: R) {
    let b = start(p(6), p(7));
    if neg { lit("-"); }
    lit_bytes(&x.text[..x.n]);
    finish(b, r)
}
fn dec(v: u32, neg: bool) {
    if neg { lit("-"); }
    let mut t = [0u8; 5]; let mut q = v; let mut n = 0;
    while n == 0 || q > 0 { t[4 - n] = (q % 10) as u8 + b'0'; q /= 10; n += 1; }
    lit_bytes(&t[5 - n..]);
}
macro_rules! int { ($($h:ident $t:ty, $u:ty, $nz:ty);* $(;)?) => { $(
    /// digits, first symbolic pair, number of symbolic pairs, fill, negative, non-zero type; capacity, previous length
    #[no_mangle] pub fn $h() {
        let neg = p(4) == 1;
        let max = if neg { <$t>::MIN as $u } else { <$t>::MAX as $u };
        let x = number(p(0), p(1), p(2), p(3), max as u128);
        if neg { assume(x.mag != 0); }
        let v = x.mag as $u as $t;
        let v = if neg { (0 as $t).wrapping_sub(v) } else { v };
        if p(5) == 1 { assume(v != 0); go(&x, neg, unsafe { <$nz>::new_unchecked(v) }) } else { go(&x, neg, v) }
    }
)* } }
int! {
    h_u8 u8, u8, NonZeroU8; h_u16 u16, u16, NonZeroU16; h_u32 u32, u32, NonZeroU32; h_u64 u64, u64, NonZeroU64; h_usize usize, usize, NonZeroUsize; h_u128 u128, u128, NonZeroU128;
    h_i8 i8, u8, NonZeroI8; h_i16 i16, u16, NonZeroI16; h_i32 i32, u32, NonZeroI32; h_i64 i64, u64, NonZeroI64; h_isize isize, usize, NonZeroIsize; h_i128 i128, u128, NonZeroI128;
}
/// every value of the small types: type, digits, negative; capacity, previous length
#[no_mangle] pub fn h_all8() {
    let v = u8_();
    let b = start(p(2), p(3));
    if p(0) == 0 { dec(v as u32, false); if p(1) == 1 { assume(v != 0); finish(b, unsafe { NonZeroU8::new_unchecked(v) }) } else { finish(b, v) } }
    else { let v = v as i8; dec(v.unsigned_abs() as u32, v < 0); if p(1) == 1 { assume(v != 0); finish(b, unsafe { NonZeroI8::new_unchecked(v) }) } else { finish(b, v) } }
}
#[no_mangle] pub fn h_all16() {
    let v = u16_();
    let b = start(p(2), p(3));
    if p(0) == 0 { dec(v as u32, false); if p(1) == 1 { assume(v != 0); finish(b, unsafe { NonZeroU16::new_unchecked(v) }) } else { finish(b, v) } }
    else { let v = v as i16; dec(v.unsigned_abs() as u32, v < 0); if p(1) == 1 { assume(v != 0); finish(b, unsafe { NonZeroI16::new_unchecked(v) }) } else { finish(b, v) } }
}
