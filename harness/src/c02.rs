//! memory: the escapers and every value's renderer, with all allocator and buffer states
#[path = "c01.rs"] pub mod e;
#[path = "c07.rs"] pub mod c7;
#[path = "c08.rs"] pub mod c8;
#[path = "c09.rs"] pub mod c9;
use crate::pre::*;
/// values one after another into a small buffer: capacity, previous length, text length
#[no_mangle] pub fn h_mix() {
    let mut b = start(p(0), p(1));
    let s = text_at(p(2), 3);
    let k = choose(4);
    let v = u8_();
    let f = bool_();
    out(&b);
    match k { 0 => { v.render(&mut b); s.render(&mut b) } 1 => { f.render(&mut b); s.render(&mut b) } 2 => { s.render(&mut b); v.render(&mut b) } _ => { s.render(&mut b); s.render(&mut b) } }
    match k { 0 => { lit_dec(v as u32); esc(s) } 1 => { lit(if f { "true" } else { "false" }); esc(s) } 2 => { esc(s); lit_dec(v as u32) } _ => { esc(s); esc(s) } }
    check_str(b.as_str(), 1);
    check(block(b.as_mut_ptr()) == b.capacity(), 3);
    drop(b);
    check(live() == 0, 2);
}
