//! untrusted text in every position: what reaches the output, read back by an independent decoder
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{borrow::Cow, format, string::String, vec};
use core::fmt::{self, Display, Formatter, Write};
/// untrusted text: capacity, previous length, kind (0 every text of this length, 1 a long one with one symbolic byte, 2 the same with a run of four, 3 and 4 a long text of fixed content but for one byte), length, cpu + 1
fn s() -> &'static str {
    if p(4) > 0 { cpu(p(4) - 1) }
    let n = p(3);
    if p(2) == 0 { return t(n) }
    if p(2) == 3 { return long(0, n, 3, 0, 1) }
    if p(2) > 3 { return long(0, n, 3, p(2) - 3, 1) }
    let s = bytes(n, 1);
    let at = choose((n + 4) / 5) * 5;
    let k = if p(2) == 1 { 1 } else { 4 };
    for i in 0..n { if i < at || i >= at + k { assume(s[i] == b'a' + (i % 26) as u8) } }
    let s = unsafe { core::str::from_utf8_unchecked(s) };
    utf8(s);
    s
}
fn special(c: u8) -> bool { c == b'"' || c == b'\'' || c == b'<' || c == b'>' || c == b'&' }
/// reads one text back: what comes at `i` must be exactly it, with entities and nothing else in place of special characters
fn take(o: &[u8], i: usize, s: &str) -> usize {
    let mut i = i;
    for c in s.bytes() {
        if i >= o.len() { check(false, 40); return i }
        let d = o[i];
        check(d != b'"' && d != b'\'' && d != b'<' && d != b'>', 41);
        if d == b'&' {
            let mut hit = false;
            for (e, k) in [("&quot;", b'"'), ("&amp;", b'&'), ("&#39;", b'\''), ("&lt;", b'<'), ("&gt;", b'>')] {
                let e = e.as_bytes();
                if !hit && i + e.len() <= o.len() && (0..e.len()).all(|j| o[i + j] == e[j]) { hit = true; check(c == k, 42); i += e.len(); break }
            }
            check(hit, 43);
            if !hit { return i }
        } else { check(d == c, 44); i += 1 }
    }
    i
}
fn skip(o: &[u8], i: usize, s: &str) -> usize { let s = s.as_bytes(); if i + s.len() > o.len() { check(false, 45); return i } for j in 0..s.len() { check(o[i + j] == s[j], 46) } i + s.len() }
fn head() -> Buffer { let mut b = Buffer::with_capacity(p(0)); for _ in 0..p(1) { b.push_str("="); } b }
macro_rules! parts {
    ($o:ident $i:ident) => { { } };
    ($o:ident $i:ident $l:literal $($r:tt)*) => { { $i = skip($o, $i, $l); parts!($o $i $($r)*) } };
    ($o:ident $i:ident @ $x:ident $($r:tt)*) => { { $i = take($o, $i, $x); parts!($o $i $($r)*) } };
    ($o:ident $i:ident if $k:ident { $($a:tt)* } $($r:tt)*) => { { if $k { parts!($o $i $($a)*) } parts!($o $i $($r)*) } };
}
macro_rules! see { ($e:expr; $($parts:tt)*) => {{ let mut b = head(); $e.render(&mut b); let o = b.as_str().as_bytes(); let mut i = p(1); parts!(o i $($parts)*); check(i == o.len(), 47); }} }
macro_rules! seen { ($($h:ident($x:ident) $body:block)*) => { $( #[no_mangle] pub fn $h() { let $x = s(); $body } )* } }
seen! {
    h_25_text(x) { see!(x; @x) }
    h_25_string(x) { see!(String::from(x); @x) }
    h_25_child(x) { see!(p!(x); "<p>" @x "</p>") }
    h_25_child_among(x) { see!(p!("a<", x, 1, b!(x)); "<p>a&lt;" @x "1<b>" @x "</b></p>") }
    h_25_attr(x) { see!(p!(a = x); "<p a=\"" @x "\"></p>") }
    h_25_attr_among(x) { see!(a!(href = x, id = "i", x, title = x); "<a href=\"" @x "\" id=\"i\" title=\"" @x "\">" @x "</a>") }
    h_25_void(x) { see!(img!(src = x, alt = x); "<img src=\"" @x "\" alt=\"" @x "\">") }
    h_25_name(x) { see!(p!({ x } = 1); "<p " @x "=\"1\"></p>") }
    h_25_bool_name(x) { let k = bool_(); see!(p!({ x } = bool!(k), { x } = bool!(true)); "<p" if k { " " @x } " " @x "></p>") }
    h_25_nested(x) { see!(div!(p!(b!(x), a = x)); "<div><p a=\"" @x "\"><b>" @x "</b></p></div>") }
    h_25_var(x) { let e = b!(x, a = x); see!(div!(e); "<div><b a=\"" @x "\">" @x "</b></div>") }
    h_25_frag(x) { see!(frag!(x, frag!("-", x)); @x "-" @x) }
    h_25_classes(x) { see!(p!(class = classes!(x, "a", x)); "<p class=\"" @x " a " @x "\"></p>") }
    h_25_iter(x) { see!(ul!(iter!([x, x])); "<ul>" @x @x "</ul>") }
    h_25_iter_delim(x) { see!(p!(class = iter!(" ", [x, x])); "<p class=\"" @x " " @x "\"></p>") }
    h_25_iter_lines(x) { see!(iter_lines!([x, x]); @x "\n" @x) }
    h_25_iter_elems(x) { see!(ul!(iter!([x, x].into_iter().map(|v| li!(id = v, v)))); "<ul><li id=\"" @x "\">" @x "</li><li id=\"" @x "\">" @x "</li></ul>") }
    h_25_args(x) { see!(p!(format_args!("{}|{}", x, x)); "<p>" @x "|" @x "</p>") }
    h_25_args_attr(x) { see!(p!(a = format_args!("<{}>", x)); "<p a=\"&lt;" @x "&gt;\"></p>") }
    h_25_args_pad(x) { see!(format_args!("{:<9}", Plain(x)); @x) }
    h_25_display(x) { see!(p!(disp!(Plain(x)), a = disp!(Plain(x))); "<p a=\"" @x "\">" @x "</p>") }
    h_25_display_chars(x) { see!(p!(disp!(Chars(x))); "<p>" @x "</p>") }
    h_25_display_split(x) { see!(p!(disp!(Split(x))); "<p>" @x "</p>") }
    h_25_format(x) { see!(p!(format!("{}", x)); "<p>" @x "</p>") }
    h_25_option(x) { let k = bool_(); see!(p!(Some(x), if k { Some(String::from(x)) } else { None }); "<p>" @x if k { @x } "</p>") }
    h_25_component(x) { see!(comp!(x, head = x, class = x); "<div class=\"" @x "\"><h1>" @x "</h1>" @x "</div>") }
    h_25_component_default(x) { see!(comp!(head = b!(x)); "<div class=\"d\"><h1><b>" @x "</b></h1></div>") }
    h_25_match(x) { let n = choose(3); match n { 0 => see!(p!(frag_match!(match n { 0 => x, 1 => b!(x), _ => Some(x) })); "<p>" @x "</p>"), 1 => see!(p!(frag_match!(match n { 0 => x, 1 => b!(x), _ => Some(x) })); "<p><b>" @x "</b></p>"), _ => see!(p!(a = frag_match!(match n { 0 => x, 1 => b!(x), _ => Some(x) })); "<p a=\"" @x "\"></p>") } }
    h_25_if(x) { let k = bool_(); if k { see!(p!(frag_match!(if k { x } else { "n" }), a = if k { x } else { "n" }); "<p a=\"" @x "\">" @x "</p>") } }
    h_25_raw_beside(x) { see!(p!(raw!("<i>"), x, raw!("</i>"), a = raw!("&"), b = x); "<p a=\"&\" b=\"" @x "\"><i>" @x "</i></p>") }
    h_25_render(x) { let s = render!(p!(x), x); let o = s.as_bytes(); let mut i = 0; parts!(o i "<p>" @x "</p>" @x); check(i == o.len(), 47) }
    h_25_escape_str(x) { let s = laby::internal::escape_str(x); let s: String = s.into(); let o = s.as_bytes(); let i = take(o, 0, x); check(i == o.len(), 47) }
    h_25_twice(x) { see!(frag!(x, x, x); @x @x @x) }
    h_25_user(x) { see!(p!(User(x)); "<p><em>" @x "</em></p>") }
    h_25_function(x) { fn f(v: impl Render) -> impl Render { q!(v) } see!(p!(f(x)); "<p><q>" @x "</q></p>") }
    h_25_bytes_of_char(x) { let c = any_char(); let mut o = [0; 4]; let n = encode(c, &mut o); let y = unsafe { core::str::from_utf8_unchecked(&o[..n]) }; see!(p!(c, a = c, x); "<p a=\"" @y "\">" @y @x "</p>") }
    h_25_char_args(x) { let c = any_char(); let mut o = [0; 4]; let n = encode(c, &mut o); let y = unsafe { core::str::from_utf8_unchecked(&o[..n]) }; see!(format_args!("{}{}", c, x); @y @x) }
    h_25_cow(x) { let n = Name(x); see!(p!(Cow::Borrowed(&n), Cow::Owned::<Name>(n.clone())); "<p>" @x @x "</p>") }
}
#[derive(Clone)] struct Name(&'static str);
impl Render for Name { fn render(self, b: &mut Buffer) { self.0.render(b) } }
impl<'a> Render for &'a Name { fn render(self, b: &mut Buffer) { String::from(self.0).render(b) } }
struct User(&'static str);
impl Render for User { fn render(self, b: &mut Buffer) { em!(self.0).render(b) } }
struct Plain(&'static str);
impl Display for Plain { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str(self.0) } }
struct Chars(&'static str);
impl Display for Chars { fn fmt(&self, f: &mut Formatter) -> fmt::Result { for c in self.0.chars() { f.write_char(c)? } Ok(()) } }
struct Split(&'static str);
impl Display for Split { fn fmt(&self, f: &mut Formatter) -> fmt::Result { let n = self.0.chars().next().map_or(0, |c| c.len_utf8()); f.write_str(&self.0[..n])?; f.write_str(&self.0[n..]) } }
#[laby] fn comp(head: impl Render, #[default("d")] class: &'static str, #[rest] body: impl Render) -> impl Render { div!(class = class, h1!(head), body) }
