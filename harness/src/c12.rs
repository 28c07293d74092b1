//! iterators
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{string::String, vec::Vec, vec};
/// yields its items, then None, then (were it asked again) something that must not appear
struct It { items: [&'static str; 4], n: usize, at: usize, calls: *mut usize, hint: usize }
impl Iterator for It {
    type Item = &'static str;
    fn next(&mut self) -> Option<&'static str> {
        unsafe { *self.calls += 1; }
        check(unsafe { *self.calls } <= self.n + 1, 20);
        self.at += 1;
        if self.at <= self.n { Some(self.items[self.at - 1]) } else if self.at == self.n + 1 { None } else { Some("again") }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { match self.hint { 0 => (0, None), 1 => (self.n - self.at.min(self.n), Some(self.n - self.at.min(self.n))), 2 => (0, Some(usize::MAX)), 3 => (5usize.saturating_sub(self.at), None), _ => (0, Some(0)) } }
}
fn items(n: usize, m: usize, calls: &mut usize, hint: usize) -> It { let mut l = [""; 4]; for i in 0..n { l[i] = t(m) } It { items: l, n, at: 0, calls, hint } }
fn want(i: &It, d: Option<&str>) { for k in 0..i.n { if let (true, Some(d)) = (k > 0, d) { lit(d) } esc(i.items[k]) } }
/// items, bytes each, bytes of the delimiter; capacity, previous length
#[no_mangle] pub fn h_12_iter() {
    let b = start(p(3), p(4)); let mut calls = 0; let i = items(p(0), p(1), &mut calls, p(2) % 5);
    want(&i, None);
    let n = i.n;
    finish(b, iter!(i));
    check(calls == n + 1, 21);
}
#[no_mangle] pub fn h_12_delim() {
    let b = start(p(3), p(4)); let mut calls = 0; let i = items(p(0), p(1), &mut calls, p(0) % 3 + 2 * choose(2));
    let d = t(p(2));
    want(&i, Some(d));
    let n = i.n;
    finish(b, iter!(d, i));
    check(calls == n + 1, 21);
}
/// the first None ends it even if the very first call returns it
#[no_mangle] pub fn h_12_lines() {
    let b = start(p(3), p(4)); let mut calls = 0; let i = items(p(0), p(1), &mut calls, 3 * choose(2));
    want(&i, Some("\n"));
    let n = i.n;
    finish(b, iter_lines!(i));
    check(calls == n + 1, 21);
}
case! {
    h_12_vec(b) { let x = t(2); let y = t(1); w![[x], [y], [x]]; end(b, iter!(vec![x, y, x])) }
    h_12_array(b) { let x = t(2); let y = t(1); w![[x], "<", [y]]; end(b, iter!("<", [x, y])) }
    h_12_slice(b) { let x = t(1); let l = [x, "c", x]; w![[x], ", ", "c", ", ", [x]]; end(b, iter!(", ", l.iter().copied())) }
    h_12_opt(b) { let x = t(2); if bool_() { esc(x); end(b, iter!("|", Some(x))) } else { end(b, iter!("|", None::<&str>)) } }
    h_12_range(b) { let n = u8_(); assume(n <= 4); for i in 0..n { if i > 0 { lit("-") } lit_dec(i as u32) } end(b, iter!("-", 0..n)) }
    h_12_map(b) { let x = t(1); w!["<li>", [x], "</li>", "<li>", "b", "</li>"]; end(b, iter!([x, "b"].into_iter().map(|v| li!(v)))) }
    h_12_string_delim(b) { let x = t(1); let d = t(2); w![[x], (d), [x]]; end(b, iter!(String::from(d), vec![x, x])) }
    h_12_from(b) { let x = t(2); w![[x], [x]]; end(b, RenderIterator::from([x, x])) }
    h_12_nested(b) { let x = t(1); w![[x], ",", "y", ";", [x], ",", "y"]; end(b, iter!(";", (0..2).map(|_| iter!(",", [x, "y"])))) }
    h_12_chars(b) { let c = any_char(); esc_char(c); w!["/"]; esc_char(c); end(b, iter!("/", [c, c])) }
    h_12_empty(b) { end(b, iter!("x", Vec::<&str>::new())) }
    h_12_in_element(b) { let x = t(2); let y = t(1); w!["<ul class=\"", [x], " ", [y], "\">", [x], "<br>", [y], "z", "</ul>"]; end(b, ul!(class = iter!(" ", [x, y]), iter!("<br>", [x, y]), "z")) }
    h_12_empties(b) { w![",", ","]; end(b, iter!(",", ["", "", ""])) }
    h_12_opts(b) { let x = t(1); w!["+", [x], "+"]; end(b, iter!("+", [None, Some(x), None])) }
    h_12_filter(b) { let n = u8_(); let mut first = true; for i in 0..4u8 { if n >> i & 1 == 1 { if !first { lit(", ") } first = false; lit_dec(i as u32) } } end(b, iter!(", ", (0..4u8).filter(move |i| n >> i & 1 == 1))) }
    h_12_returned(b) { let x = t(1); let d = t(1); fn f(d: &str, x: &'static str) -> impl Render { let d = String::from(d); let l = vec![x, "m", x]; let y = iter!(l.clone()); let z = iter_lines!(l.clone()); frag!(iter!(d, l), ";", y, ";", z) } w![[x], (d), "m", (d), [x], ";", [x], "m", [x], ";", [x], "\n", "m", "\n", [x]]; let r = { let e = String::from(d); f(&e, x) }; end(b, r) }
    h_12_borrowed(b) { let x = t(1); let d = t(1); let l = vec![String::from(x), String::from("n")]; let s = String::from(d); w![[x], (d), "n", [x], "n", [x], (d), "n"]; end(b, frag!(iter!(&s, l.iter().map(|v| v.as_str())), iter!(l.iter().map(String::as_str)), iter!(s.as_str(), l.iter().map(String::as_str)))) }
    h_12_flow(b) { let x = t(1); let n = choose(3); fn f(n: usize, x: &'static str) -> Option<String> { let o = if n == 1 { None } else { Some(x) }; let d = if n == 2 { None } else { Some(",") }; Some(render!(iter!(d?, [o?, "b"]), iter!([o?]), iter_lines!(Some(o?)))) } if n == 0 { w![[x], ",b", [x], [x]] } let r = f(n, x); check(r.is_none() == (n != 0), 24); end(b, r.map(laby::RenderRaw)) }
}
/// laziness: an item is taken only after the one before it was rendered, and never rendered twice
struct Item(usize, *mut [usize; 2]);
impl Render for Item { fn render(self, b: &mut Buffer) { unsafe { let s = &mut *self.1; s[1] += 1; check(s[1] == self.0 + 1, 22); } b.push_str("i"); } }
#[no_mangle] pub fn h_12_once() {
    let b = start(p(0), p(1)); let n = p(2);
    let mut s = [0usize; 2]; let q: *mut [usize; 2] = &mut s;
    for i in 0..n { if i > 0 { lit("..") } lit("i") }
    finish(b, iter!("..", (0..n).map(move |i| unsafe { (*q)[0] += 1; Item(i, q) })));
    check(s[0] == n && s[1] == n, 23);
}
/// many items: capacity, previous length, how many, bytes of the delimiter
#[no_mangle] pub fn h_12_huge() { {
    // more items than a small counter holds: capacity, previous length, how many, form
    let b = start(p(0), p(1)); let n = p(2); let x = t(1); let d = ["", ";"][p(3) & 1];
    let it = move |i: usize| if i == n - 1 { x } else if i % 1000 == 999 { "k" } else { "" };
    for i in 0..n { if i > 0 && p(3) & 1 == 1 { lit(d) } if i == n - 1 || i % 1000 == 999 { esc(it(i)) } }
    match p(3) { 0 => end(b, RenderIterator::from((0..n).map(it))), 1 => end(b, iter!(d, (0..n).map(it))), 2 => end(b, iter!((0..n).map(it))), _ => end(b, RenderIteratorDelimited((0..n).map(it).filter(|_| true), d)) }
} check(live() == 0, 2); }
#[no_mangle] pub fn h_12_many() { {
    let b = start(p(0), p(1)); let n = p(2); let at = [0, n / 2, n.saturating_sub(1)][choose(3)]; let x = t(1); let d = ["", ",", "<br>", "<hr class=\"a long delimiter with a lot of text in it, & more\">"][p(3)];
    let it = move |i: usize| if i == at { x } else { ["ab", "", "<c>", "d&e", "a longer item of text here"][i * 7 % 5] };
    let l: Vec<&'static str> = (0..n).map(it).collect();
    for i in 0..n { if i > 0 { lit(d) } esc(l[i]) }
    match (choose(4), p(3)) {
        (0, 0) => end(b, iter!(l)), (1, 0) => end(b, RenderIterator::from((0..n).map(it))), (2, 0) => end(b, iter!((0..n).map(it).filter(|_| true))),
        (0, _) => end(b, iter!(d, l)), (1, _) => end(b, iter!(d, (0..n).map(it))), (2, _) => end(b, RenderIteratorDelimited((0..n).map(it).filter(|_| true), String::from(d))),
        _ => end(b, iter!(d, (0..n).map(it).chain(None))),
    }
} check(live() == 0, 2); }
