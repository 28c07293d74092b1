//! char
use crate::pre::*;
/// any char: capacity, previous length
#[no_mangle] pub fn h_char() {
    let b = start(p(0), p(1));
    let c = any_char();
    esc_char(c);
    finish(b, c);
}
/// two chars in a row, and the same as texts
#[no_mangle] pub fn h_chars() {
    let mut b = start(p(0), p(1));
    let c = any_char(); let d = if p(2) == 0 { any_char() } else { c };
    esc_char(c); esc_char(d);
    out(&b);
    c.render(&mut b);
    if p(2) == 0 { d.render(&mut b) } else { let mut o = [0; 4]; let n = encode(d, &mut o); unsafe { core::str::from_utf8_unchecked(&o[..n]) }.render(&mut b) }
    check_str(b.as_str(), 1);
    drop(b);
    check(live() == 0, 2);
}
