//! processors and first calls
#[path = "c01.rs"] pub mod e;
use crate::pre::*;
/// calls, threads, cpu + 1, n: each call may happen on any thread and see any value of the selector it is allowed to see
#[no_mangle] pub fn h_threads() {
    atomics(true);
    if p(2) > 0 { cpu(p(2) - 1) }
    for i in 0..p(0) {
        thread(if i == 0 { 0 } else { choose(p(1)) as u32 });
        spec_reset();
        let n = p(3);
        let s = bytes(n, 1 + i);
        for j in 1..n { assume(s[j] == if j == 5 { b'&' } else { b'a' + j as u8 }); }
        let s = unsafe { core::str::from_utf8_unchecked(s) };
        utf8(s);
        let mut b = Buffer::with_capacity(2 * n);
        esc(s);
        out(&b);
        laby::internal::escape(s, &mut b);
        check_str(b.as_str(), 1);
    }
}
/// one thread, calls one after another with texts of different lengths: calls, cpu + 1, first length or 0
#[no_mangle] pub fn h_history() {
    if p(1) > 0 { cpu(p(1) - 1) }
    let mut b = Buffer::with_capacity(0);
    for i in 0..p(0) {
        let n = if i == 0 && p(2) > 0 { p(2) } else { [16, 17, 24, 31, 32, 33, 35, 40, 47, 48, 63, 64, 65, 100][choose(14)] };
        let at = [0, n / 2, n - 1][choose(3)];
        let s = bytes(n, 1 + i);
        for j in 0..n { if j != at { assume(s[j] == b'a' + (j % 26) as u8) } }
        let s = unsafe { core::str::from_utf8_unchecked(s) };
        utf8(s);
        esc(s);
        laby::internal::escape(s, &mut b);
    }
    check_str(b.as_str(), 1);
    drop(b);
    check(live() == 0, 2);
}
