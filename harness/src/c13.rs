//! raw text
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{borrow::Cow, boxed::Box, rc::Rc, string::String};
case! {
    h_13_str(b) { let s = t(4); lit(s); end(b, raw!(s)) }
    h_13_string(b) { let s = t(3); lit(s); end(b, raw!(String::from(s))) }
    h_13_ref_string(b) { let s = t(3); lit(s); let x = String::from(s); end(b, raw!(&x)) }
    h_13_cow(b) { let s = t(3); lit(s); end(b, raw!(if bool_() { Cow::Borrowed(s) } else { Cow::Owned(String::from(s)) })) }
    h_13_box(b) { let s = t(2); lit(s); let x: Box<str> = s.into(); end(b, raw!(x)) }
    h_13_rc(b) { let s = t(2); lit(s); let x: Rc<str> = s.into(); end(b, raw!(x)) }
    h_13_from(b) { let s = t(3); lit(s); end(b, RenderRaw::from(s)) }
    h_13_returned(b) { let s = t(2); fn f(s: &str) -> impl Render { let s = String::from(s); let r = raw!(s); p!(r) } w!["<p>", (s), "</p>"]; let r = { let e = String::from(s); f(&e) }; end(b, r) }
    h_13_flow(b) { let s = t(2); let k = bool_(); fn f(o: Option<&str>) -> Option<String> { Some(render!(raw!(o?))) } if k { lit(s) } let r = f(if k { Some(s) } else { None }); check(r.is_some() == k, 24); end(b, r.map(laby::RenderRaw)) }
    h_13_struct(b) { let s = t(3); lit(s); end(b, RenderRaw(s)) }
    h_13_lit(b) { w!["<i>&\"'</i>"]; end(b, raw!("<i>&\"'</i>")) }
    h_13_empty(b) { end(b, raw!("")) }
    h_13_child(b) { let s = t(2); let x = t(2); w!["<p>", [x], (s), [x], "</p>"]; end(b, p!(x, raw!(s), x)) }
    h_13_attr(b) { let s = t(2); let x = t(2); w!["<p title=\"", (s), "\" id=\"", [x], "\"></p>"]; end(b, p!(title = raw!(s), id = x)) }
    h_13_attr_name(b) { let s = t(2); let x = t(1); w!["<p ", (s), "=\"", [x], "\"></p>"]; end(b, p!({ raw!(s) } = x)) }
    h_13_bool_name(b) { let s = t(2); let f = bool_(); w!["<p"]; if f { w![" ", (s)] } w!["></p>"]; end(b, p!({ raw!(s) } = bool!(f))) }
    h_13_opt(b) { let s = t(2); if bool_() { lit(s); end(b, Some(raw!(s))) } else { end(b, None::<RenderRaw<&str>>) } }
    h_13_iter(b) { let s = t(2); let x = t(1); w![(s), (x), (s)]; end(b, iter!(x_raw(x), [raw!(s), raw!(s)])) }
    h_13_frag(b) { let s = t(2); let x = t(1); w![[x], (s), (s), [x]]; end(b, frag!(x, raw!(s), frag!(raw!(s)), x)) }
    h_13_classes(b) { let s = t(2); let x = t(1); w![[x], " ", (s)]; end(b, classes!(x, raw!(s))) }
    h_13_nested(b) { let s = t(2); let x = t(1); w!["<div><p>", (s), "</p>", [x], "</div>"]; let n = p!(raw!(s)); end(b, div!(n, x)) }
    h_13_match(b) { let s = t(2); let x = t(2); if bool_() { lit(s); end(b, frag_match!(if true { raw!(s) } else { x })) } else { esc(x); let f = false; end(b, frag_match!(if f { raw!(s) } else { x })) } }
    h_13_long(b) { let s = bytes(40, 1); for i in 0..40 { if i % 13 != 5 { assume(s[i] == b"a<b>\"c\"&'"[i % 9]) } } let s = unsafe { core::str::from_utf8_unchecked(s) }; utf8(s); lit(s); end(b, raw!(s)) }
}
/// the delimiter is raw already
fn x_raw(x: &'static str) -> Delim { Delim(x) }
struct Delim(&'static str);
impl AsRef<str> for Delim { fn as_ref(&self) -> &str { self.0 } }
/// raw text of any length: capacity, previous length, length
#[no_mangle] pub fn h_13_raw() { let b = start(p(0), p(1)); let s = text_at(p(2), 3); lit(s); finish(b, raw!(s)) }
/// long raw text: capacity, previous length, length, kind
#[no_mangle] pub fn h_13_big() { let b = start(p(0), p(1)); let s = long(0, p(2), 5, p(3), 1); lit(s); match choose(3) { 0 => finish(b, raw!(s)), 1 => finish(b, raw!(String::from(s))), _ => { let x = Cow::Borrowed(s); finish(b, RenderRaw::from(x)) } } }
