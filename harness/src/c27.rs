//! memory accounting, also when a value's code panics in the middle
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{borrow::Cow, boxed::Box, format, string::String, vec::Vec, vec};
use core::fmt::{self, Display, Formatter, Write};
/// counts down to the panic
static mut LEFT: usize = 0;
/// the same for the specification
static mut SPEC: usize = 0;
/// true when the panic is due
fn due(c: *mut usize) -> bool { unsafe { if *c == 0 { return false } *c -= 1; *c == 0 } }
fn tick() { if due(&raw mut LEFT) { panic!("bomb") } }
/// arm: 0 never, k the k-th event
fn arm(n: usize) -> usize { let k = choose(n + 1); unsafe { LEFT = k; SPEC = if k == 0 { usize::MAX } else { k } } k }
fn alive() -> bool { unsafe { SPEC > 0 } }
fn ltick() { unsafe { if SPEC > 0 && SPEC != usize::MAX { SPEC -= 1 } } }
fn own(s: &str) -> String { let mut v = String::with_capacity(s.len() + 3); v.push_str(s); v }
/// panics before it writes anything
struct A(String);
impl Render for A { fn render(self, b: &mut Buffer) { tick(); self.0.as_str().render(b) } }
/// writes part of its text, then panics
struct M(String);
impl Render for M { fn render(self, b: &mut Buffer) { self.0.as_str().render(b); b.push('<'); tick(); b.push_str("/"); } }
impl Display for M { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str(&self.0)?; f.write_char('<')?; tick(); f.write_str("/") } }
/// holds several owned things
struct Rich(String, Vec<String>, Box<u32>);
impl Render for Rich { fn render(self, b: &mut Buffer) { tick(); for s in self.1 { s.render(b); tick() } self.0.render(b); } }
fn rich(s: &str) -> Rich { Rich(own(s), vec![own(s), own("-")], Box::new(7)) }
/// an iterator with owned items that panics on its way
struct It(Vec<String>);
impl Iterator for It { type Item = String; fn next(&mut self) -> Option<String> { tick(); self.0.pop() } }
impl Drop for It { fn drop(&mut self) {} }
struct Del(String);
impl AsRef<str> for Del { fn as_ref(&self) -> &str { tick(); &self.0 } }
// the specification: written as long as the panic has not come
macro_rules! x {
    () => {{}};
    ($l:literal $($r:tt)*) => { { if alive() { lit($l) } x!($($r)*) } };
    (@ $e:ident $($r:tt)*) => { { if alive() { esc($e) } x!($($r)*) } };
    (! $($r:tt)*) => { { ltick(); x!($($r)*) } };
    (A $e:ident $($r:tt)*) => { { ltick(); if alive() { esc($e) } x!($($r)*) } };
    (M $e:ident $($r:tt)*) => { { if alive() { esc($e); lit("<") } ltick(); if alive() { lit("/") } x!($($r)*) } };
    (D $e:ident $($r:tt)*) => { { if alive() { esc($e); lit("&lt;") } ltick(); if alive() { lit("/") } x!($($r)*) } };
    (R $e:ident $($r:tt)*) => { { ltick(); if alive() { esc($e) } ltick(); if alive() { lit("-") } ltick(); if alive() { esc($e) } x!($($r)*) } };
    (if $k:ident { $($a:tt)* } $($r:tt)*) => { { if $k { x!($($a)*) } x!($($r)*) } };
}
/// render; look at the buffer afterwards; go on using it
fn go<N: Render>(mut b: Buffer, n: N) {
    out(&b);
    let ok = catch(|| n.render(&mut b));
    check(ok == alive(), 30);
    check_str(b.as_str(), 1);
    check(b.len() <= b.capacity(), 3);
    b.push_str("then"); lit("then");
    '>'.render(&mut b); lit("&gt;");
    check_str(b.as_str(), 31);
    let s = b.into_string();
    check_str(&s, 32);
    drop(s);
}
macro_rules! boom { ($($h:ident($b:ident, $x:ident, $n:expr) { $($s:tt)* } $e:expr;)*) => { $(
    #[no_mangle] pub fn $h() { { let $b = start(p(0), p(1)); let $x = t(p(2)); arm($n); x!($($s)*); go($b, $e) } check(live() == 0, 2); }
)* } }
boom! {
    h_27_children(b, x, 3) { "<p>" A x A x A x "</p>" } p!(A(own(x)), A(own(x)), A(own(x)));
    h_27_middle(b, x, 3) { "<p>" M x M x M x "</p>" } p!(M(own(x)), M(own(x)), M(own(x)));
    h_27_rich(b, x, 6) { "<p a=\"1\">" R x "x" R x "</p>" } p!(rich(x), a = 1, "x", rich(x));
    h_27_nested(b, x, 3) { "<div>" A x "<p><b>" M x "</b>" @x "</p>" A x "</div>" } div!(A(own(x)), p!(b!(M(own(x))), own(x)), A(own(x)));
    h_27_nested_var(b, x, 3) { "<div>" A x "<p><b>" M x "</b>" @x "</p>" A x "</div>" } { let i = b!(M(own(x))); let j = p!(i, own(x)); div!(A(own(x)), j, A(own(x))) };
    h_27_after(b, x, 2) { "<p>" @x A x @x A x @x "</p>" } p!(own(x), A(own(x)), own(x), A(own(x)), own(x));
    h_27_attrs(b, x, 3) { "<p a=\"" A x "\" b=\"" M x "\" c=\"" @x "\">" A x @x "</p>" } p!(A(own(x)), a = A(own(x)), b = M(own(x)), c = own(x), own(x));
    h_27_names(b, x, 2) { "<p " A x "=\"" @x "\" " M x "=\"" @x "\"></p>" } p!({ A(own(x)) } = own(x), { M(own(x)) } = own(x));
    h_27_void(b, x, 2) { "<p><img src=\"" A x "\" alt=\"" M x "\">" @x "</p>" } p!(img!(src = A(own(x)), alt = M(own(x))), own(x));
    h_27_frag(b, x, 3) { A x @x M x A x } frag!(A(own(x)), own(x), frag!(M(own(x)), A(own(x))));
    h_27_classes(b, x, 3) { "<p class=\"" A x " k " M x " " @x " " A x "\"></p>" } p!(class = classes!(A(own(x)), "k", M(own(x)), own(x), A(own(x))));
    h_27_iter_items(b, x, 3) { "<p>" A x A x A x "</p>" } p!(iter!(vec![A(own(x)), A(own(x)), A(own(x))]));
    h_27_iter_delim(b, x, 3) { "<p>" M x "," M x "," M x "</p>" } p!(iter!(own(","), vec![M(own(x)), M(own(x)), M(own(x))]));
    h_27_iter_lines(b, x, 2) { A x "\n" A x } iter_lines!([A(own(x)), A(own(x))]);
    h_27_iter_next(b, x, 4) { "<p>" ! @x ! @x ! @x ! "</p>" } p!(iter!(It(vec![own(x), own(x), own(x)])));
    h_27_iter_next_delim(b, x, 4) { "<p>" ! @x ! "," @x ! "," @x ! "</p>" } p!(iter!(own(","), It(vec![own(x), own(x), own(x)])));
    h_27_iter_del(b, x, 2) { "<p>" ! A x "</p>" } p!(iter!(Del(own(",")), vec![A(own(x))]));
    h_27_raw(b, x, 2) { "<p>" "&lt;" ! "k" A x "</p>" } p!("<", raw!(Del(own("k"))), A(own(x)));
    h_27_display(b, x, 2) { "<p>" D x @x D x "</p>" } p!(disp!(M(own(x))), own(x), disp!(M(own(x))));
    h_27_args(b, x, 2) { "<p>" D x "|" D x @x "</p>" } p!(format_args!("{}|{}", M(own(x)), M(own(x))), own(x));
    h_27_option(b, x, 2) { "<p>" A x M x "</p>" } p!(Some(A(own(x))), None::<A>, Some(Some(M(own(x)))));
    h_27_component(b, x, 3) { "<div><h1>" A x "</h1>" M x @x A x "</div>" } comp!(M(own(x)), title = A(own(x)), own(x), A(own(x)));
    h_27_component_default(b, x, 2) { "<div><h1>" "d" "</h1>" M x A x "</div>" } comp!(M(own(x)), A(own(x)));
    h_27_match(b, x, 2) { "<p>" A x M x "</p>" } { let v = Some(own(x)); p!(frag_match!(match v { Some(s) => A(s), None => own("n") }), M(own(x))) };
    h_27_match_if(b, x, 2) { "<p>" A x M x "</p>" } { let v = own(x); p!(frag_match!(if v.len() < 100 { A(v) } else { 1 }), M(own(x))) };
    h_27_strings(b, x, 0) { "<p a=\"" @x "\">" @x @x "</p>" } p!(own(x), a = own(x), Cow::Borrowed(&St(x)));
    h_27_many(b, x, 9) { "<p>" A x A x A x A x A x A x A x A x A x "</p>" } p!(A(own(x)), A(own(x)), A(own(x)), A(own(x)), A(own(x)), A(own(x)), A(own(x)), A(own(x)), A(own(x)));
    h_27_bools(b, x, 2) { "<p a b " A x " c=\"" M x "\"></p>" } p!(a = bool!(true), b = bool!(own(x).len() < 100), { A(own(x)) } = bool!(true), c = M(own(x)), { A(own(x)) } = bool!(x.len() > 100));
    h_27_boxed(b, x, 2) { "<p>" A x M x "</p>" } p!(Bx(Box::new(A(own(x)))), Bx(Box::new(M(own(x)))));
}
struct Bx<R>(Box<R>);
impl<R: Render> Render for Bx<R> { fn render(self, b: &mut Buffer) { (*self.0).render(b) } }
#[derive(Clone)] struct St(&'static str);
impl Render for St { fn render(self, b: &mut Buffer) { own(self.0).render(b) } }
impl<'a> Render for &'a St { fn render(self, b: &mut Buffer) { own(self.0).render(b) } }
#[laby] fn comp(#[default(own("d"))] title: impl Render, #[rest] body: impl Render) -> impl Render { div!(h1!(title), body) }

/// the values built so far are released when a later expression panics
macro_rules! early { ($($h:ident($x:ident, $n:expr) $e:expr;)*) => { $(
    #[no_mangle] pub fn $h() { { let $x = t(p(2)); let k = arm($n); let mut b = start(p(0), p(1)); let mut done = false; out(&b);
        catch(|| { let n = $e; done = true; n.render(&mut b) });
        check(done == (k == 0), 33);
        if !done { check_str(b.as_str(), 1) }
        b.push('.'); drop(b) } check(live() == 0, 2); }
)* } }
/// an owned value, if nothing goes wrong while it is made
fn mk(s: &str) -> String { let v = own(s); tick(); v }
early! {
    h_27_new_children(x, 4) p!(mk(x), mk(x), b!(mk(x)), mk(x));
    h_27_new_attrs(x, 4) p!(mk(x), a = mk(x), b = mk(x), { mk(x) } = bool!(x.len() < 100));
    h_27_new_bool(x, 4) p!(mk(x), a = bool!(mk(x).len() < 9), { mk(x) } = bool!(mk(x).len() < 9));
    h_27_new_nested(x, 4) { let i = div!(mk(x), "k", mk(x)); p!(mk(x), i, mk(x)) };
    h_27_new_frag(x, 4) frag!(mk(x), frag!(mk(x), mk(x)), classes!(mk(x), "x"));
    h_27_new_iter(x, 4) p!(iter!(mk(x), vec![mk(x), mk(x)]), mk(x));
    h_27_new_component(x, 4) comp!(mk(x), title = mk(x), mk(x), mk(x));
    h_27_new_match(x, 3) { let v = mk(x); p!(mk(x), frag_match!(match v.len() { 100 => 1, _ => mk(x) })) };
    h_27_new_display(x, 3) p!(disp!(mk(x)), raw!(mk(x)), Some(mk(x)));
}
// render! owns its buffer
#[no_mangle] pub fn h_27_render() { { let x = t(p(2)); let k = arm(3); x!("<p>" A x "</p>" M x @x "1" A x);
    let mut s = None;
    let ok = catch(|| s = Some(render!(p!(A(own(x))), M(own(x)), own(x), 1, A(own(x)))));
    check(ok == (k == 0), 30);
    match &s { Some(s) => check_str(s, 1), None => check(!ok, 34) }
    drop(s) } check(live() == 0, 2); }
#[no_mangle] pub fn h_27_render_one() { { let x = t(p(2)); let k = arm(2); let ok = catch(|| { let s = render!(p!(M(own(x)), M(own(x)))); x!("<p>" M x M x "</p>"); check_str(&s, 1) }); check(ok == (k == 0), 30); } check(live() == 0, 2); }
/// a panic while another buffer is alive, and rendering again afterwards
#[no_mangle] pub fn h_27_twice() { { let x = t(p(2)); let mut b = start(p(0), p(1)); let y = own(x); out(&b);
    arm(2); x!("<p>" A x M x "</p>"); let ok = catch(|| p!(A(own(&y)), M(own(&y))).render(&mut b)); check(ok == alive(), 30); check_str(b.as_str(), 1);
    arm(2); x!("<b>" M x A x "</b>"); let ok = catch(|| b!(M(own(&y)), A(own(&y))).render(&mut b)); check(ok == alive(), 30); check_str(b.as_str(), 1);
    let c = b.clone(); check_str(c.as_str(), 35); drop(b); check_str(c.as_str(), 36); } check(live() == 0, 2); }
/// dropped without being rendered, partly or entirely
#[no_mangle] pub fn h_27_dropped() { { let x = t(p(2)); let n = div!(own(x), a = own(x), p!(own(x), iter!(vec![own(x)])), comp!(own(x)), frag!(own(x), classes!(own(x)))); drop(n); let f = frag!(own(x), p!(own(x))); let g = catch(move || { let _f = f; panic!("no") }); check(!g, 30); } check(live() == 0, 2); }
/// sequences of buffer operations with panics between
#[no_mangle] pub fn h_27_ops() { { let x = t(p(2)); let mut b = start(p(0), p(1));
    for i in 0..p(3) { match choose(9) {
        0 => { b.push_str(x); lit(x) } 1 => { b.push('é'); lit("é") } 2 => { let k = arm(1); out(&b); let ok = catch(|| M(own(x)).render(&mut b)); esc(x); lit("<"); if k == 0 { lit("/") } check(ok == (k == 0), 30) }
        3 => { let c = b.clone(); drop(core::mem::replace(&mut b, c)) } 4 => { let s = core::mem::take(&mut b).into_string(); b = Buffer::from(s) } 5 => { let s = core::mem::take(&mut b).into_string(); b = Buffer::from(s.as_str()) }
        6 => { b.reserve(p(2) + i) } 7 => { let mut s = core::mem::take(&mut b).into_string(); s.push('>'); lit(">"); b = Buffer::from(s) } _ => { b = b + x; lit(x) }
    } check_str(b.as_str(), 1) }
    if bool_() { drop(b.into_string()) } } check(live() == 0, 2); }
/// refused requests leave the buffer as it was
#[no_mangle] pub fn h_27_refused() { { let mut b = start(p(0), p(1)); let n = u64_() as usize; assume(n > 1 << 62); let ok = catch(|| b.reserve(n)); if n > isize::MAX as usize { check(!ok, 37) } b.push_str("+"); lit("+"); check_str(b.as_str(), 1); drop(b); } check(live() == 0, 2); }
/// growth across the sizes where allocators change their ways: capacity, bytes added each time, how often
static BIG: [u8; 70000] = [b'z'; 70000];
#[no_mangle] pub fn h_27_big() { {
    let s = unsafe { core::str::from_utf8_unchecked(&BIG[..p(1)]) };
    let mut b = start(p(0), 3);
    for _ in 0..p(2) {
        match choose(3) { 0 => { b.push_str(s); lit(s) } 1 => { own(s).render(&mut b); esc(s) } _ => { b.reserve(p(1) * 2 + 1); b.push('é'); lit("é") } }
        check(b.capacity() >= b.len(), 38); check(block(b.as_mut_ptr()) == b.capacity(), 39); check(live() == 1, 3);
    }
    check_str(b.as_str(), 1);
    let mut c = b.clone(); check(live() == 2, 3);
    c.push('.'); b.push('!'); lit("!"); check_str(b.as_str(), 1);
    drop(c);
    let x = b.into_string(); check_str(&x, 1);
} check(live() == 0, 2); }
