//! heap allocations: none but the output buffer's
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::borrow::Cow;
use core::fmt::{self, Display, Formatter, Write};
use core::num::NonZeroU32;
/// short: symbolic; longer: fixed, with and without special characters
fn lt(n: usize) -> &'static str {
    if n <= 8 { return t(n) }
    if n > 140 { return long(0, n, 1, choose(2) * 3, 0) }
    let a = "<p class='x'>Tom & Jerry say \"hello\" to everybody who is <i>here</i>, and to those who are not; 0 < 1 && 2 > 1, isn't it?</p>&&&&&&&&<<<<<<<<>>>>>>>>\"\"\"\"''''";
    let b = "Twas brillig, and the slithy toves did gyre and gimble in the wabe. All mimsy were the borogoves, and the mome raths outgrabe, says the poem of old.";
    if choose(2) == 0 { &a[..n] } else { &b[..n] }
}
/// looks at the allocator in the middle of rendering: only the output buffer may be alive
struct Probe;
impl Render for Probe { fn render(self, b: &mut Buffer) { check(live() <= (b.capacity() > 0) as u64, 40); b.push('.') } }
struct Shown(&'static str);
impl Display for Shown { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str(self.0)?; check(live() <= 1, 41); f.write_char('&') } }
#[derive(Clone, Copy)] struct User(&'static str, u8);
impl Render for User { fn render(self, b: &mut Buffer) { li!(id = self.1, self.0, Probe).render(b) } }
#[derive(Clone)] struct N(&'static str);
impl Render for N { fn render(self, b: &mut Buffer) { self.0.render(b) } }
impl<'a> Render for &'a N { fn render(self, b: &mut Buffer) { self.0.render(b) } }
/// a value whose copies are on the heap
struct M(&'static str, Option<alloc::boxed::Box<u8>>);
impl Clone for M { fn clone(&self) -> M { M(self.0, Some(alloc::boxed::Box::new(self.0.len() as u8))) } }
impl Render for M { fn render(self, b: &mut Buffer) { check(self.1.is_none(), 45); self.0.render(b) } }
impl<'a> Render for &'a M { fn render(self, b: &mut Buffer) { check(self.1.is_none(), 45); self.0.render(b) } }
#[laby] fn comp<'a>(title: &'a str, #[default(3)] n: u8, #[rest] body: impl Render + 'a) -> impl Render + 'a { section!(id = n, h1!(title), Probe, body) }
#[laby] fn outer<'a>(x: &'a str) -> impl Render + 'a { div!(comp!(title = x, p!(x), Probe), comp!(n = 4, title = "k")) }
fn list<'a>(l: &'a [&'a str]) -> impl Render + 'a { ul!(iter!(l.iter().map(|v| li!(class = *v, *v, Probe)))) }
/// capacity (0: grows as it goes), previous length; the number of allocations does not change if there is room
macro_rules! none { ($($h:ident($x:ident, $c:ident, $k:ident, $v:ident) $e:expr;)*) => { $(
    #[no_mangle] pub fn $h() {
        let mut b = Buffer::with_capacity(p(0));
        for _ in 0..p(1) { b.push('=') }
        if p(3) > 0 { cpu(p(3)) } let $x = lt(p(2)); let long = p(2) > 8; let $c = if long { '<' } else { any_char() }; let $k = bool_(); let $v = if long { [2, 77, 255][choose(3)] } else { u8_() };
        let a = allocs(); let n = live();
        {
            match $e { e => { check(allocs() == a, 42); e.render(&mut b); } };
        }
        check(live() == (b.capacity() > 0) as u64, 43);
        if p(0) >= 2048 { check(allocs() == a, 44) }
        drop(b);
        check(live() == 0, 2);
    }
)* } }
none! {
    h_28_text(x, c, k, v) x;
    h_28_char(x, c, k, v) frag!(c, Probe);
    h_28_int(x, c, k, v) frag!(v, v as i8, v as u128, -(v as i64), NonZeroU32::new(v as u32), usize::MAX, Probe);
    h_28_float(x, c, k, v) frag!(1.5f32 * 3.0, 2.5e300, f64::NAN, f32::INFINITY, -0.0, Probe);
    h_28_bool(x, c, k, v) frag!(k, (), true, Probe);
    h_28_option(x, c, k, v) frag!(Some(x), None::<&str>, if k { Some(c) } else { None }, Some(Some(v)), Probe);
    h_28_cow(x, c, k, v) frag!(Cow::Borrowed(&N(x)), Cow::<N>::Owned(N(x)), Probe);
    h_28_cow_text(x, c, k, v) p!(Cow::Borrowed(&M(x, None)), a = Cow::Borrowed(&M(x, None)), Probe);
    h_28_raw(x, c, k, v) p!(raw!(x), raw!("<b>"), Probe);
    h_28_literals(x, c, k, v) p!("a<b>&\"'", 'c', '<', 1, 2.5, true, b'a', a = "q\"", b = '"', Probe);
    h_28_long_literal(x, c, k, v) p!("0123456789<0123456789&0123456789\"0123456789'0123456789>0123456789", Probe);
    h_28_element(x, c, k, v) p!(x, Probe, c, v, a = x, b = c, c = v, d = bool!(k), e = Probe);
    h_28_void(x, c, k, v) p!(img!(src = x, alt = v, hidden = bool!(k), a = Probe), br!(), hr!());
    h_28_nested(x, c, k, v) div!(p!(b!(i!(u!(x, Probe), c), v), a = x), span!(x), Probe);
    h_28_nested_var(x, c, k, v) { let i = b!(x, Probe); let j = p!(i, v); div!(j, a!(href = x, c)) };
    h_28_wide(x, c, k, v) ul!(li!(x), li!(v), li!(c), li!(k), li!(x), li!(v), li!(c), li!(k), li!(x), li!(v), li!(c), li!(k), Probe);
    h_28_frag(x, c, k, v) frag!(x, frag!(c, frag!()), v, Probe);
    h_28_classes(x, c, k, v) p!(class = classes!(x, "k", v, classes!(c), Probe));
    h_28_names(x, c, k, v) p!({ x } = x, { c } = bool!(k), { v } = v, "lit" = Probe);
    h_28_iter(x, c, k, v) ul!(iter!([x, x, x]), iter!((0..v & 3).map(|i| li!(i, Probe))));
    h_28_iter_delim(x, c, k, v) ul!(iter!(", ", [x, x, x].iter().copied()), iter!(x, [Probe, Probe]));
    h_28_iter_lines(x, c, k, v) iter_lines!((0..3).map(|i| frag!(i, x, Probe)));
    h_28_iter_user(x, c, k, v) ul!(iter!([User(x, v), User(x, 1)]));
    h_28_list(x, c, k, v) list(&[x, "b", x]);
    h_28_args(x, c, k, v) p!(format_args!("{}|{:>4}|{:?}|{:x}", x, v, k, v), Probe);
    h_28_args_attr(x, c, k, v) p!(a = format_args!("n-{}", x), { format_args!("d-{}", v) } = Probe);
    h_28_display(x, c, k, v) p!(disp!(Shown(x)), disp!(c), disp!(v), Probe);
    h_28_match(x, c, k, v) p!(frag_match!(match v { 0 => x, 1 => c, 2..=9 => frag!(v, Probe), _ => {} }));
    h_28_if(x, c, k, v) p!(frag_match!(if k { b!(x) } else if v > 9 { v } else { Probe }), a = frag_match!(if let Some(n) = Some(v) { n } else { x }));
    h_28_component(x, c, k, v) comp!(title = x, p!(c), v, Probe);
    h_28_component_named(x, c, k, v) div!(comp!(n = v, title = x), comp!(title = "t", x, x));
    h_28_component_in(x, c, k, v) outer!(x = x);
    h_28_doctype(x, c, k, v) frag!(DocType::HTML5, html!(lang = "en", head!(title!(x)), body!(x, Probe)));
    h_28_user(x, c, k, v) frag!(User(x, v), User("k", 2));
    h_28_closure(x, c, k, v) { let f = |s: &'static str| b!(s, Probe); div!(f(x), f("y")) };
    h_28_page(x, c, k, v) html!(head!(title!(x), meta!(charset = "utf-8"), link!(rel = "stylesheet", href = x)), body!(class = classes!("a", x), header!(h1!(x)), main!(p!(x, a!(href = x, "here"), v), table!(tr!(td!(c), td!(v))), form!(input!(r#type = "text", value = x, disabled = bool!(k)), button!("go"))), footer!(small!("&", x)), Probe));
}
/// render!: one block, if the text fits in it
#[no_mangle] pub fn h_28_render() { { let x = lt(p(2)); let v = u8_(); let a = allocs(); let s = render!(div!(x, p!(v), a = x)); check(allocs() == a + 1 && live() == 1, 45); drop(s); let s = render!(x, v, b!(x)); check(allocs() == a + 2 && live() == 1, 46) } check(live() == 0, 2) }
/// a buffer that is used again needs nothing more
#[no_mangle] pub fn h_28_again() { { let x = lt(p(2)); let v = u8_(); let mut b = Buffer::new(); p!(x, v, a = x).render(&mut b); b.clear(); let a = allocs(); p!("", v, a = "").render(&mut b); check(allocs() == a, 47) } check(live() == 0, 2) }
/// an empty buffer needs no memory, however it is made
#[no_mangle] pub fn h_28_empty() { { let a = allocs(); let x = Buffer::new(); let y = Buffer::default(); let z = Buffer::with_capacity(0); let w = x.clone(); let v = Buffer::from(""); let u = Buffer::from(alloc::string::String::new()); check(allocs() == a, 48); check(x.into_string().is_empty() && y.into_string().is_empty() && z.into_string().is_empty() && w.into_string().is_empty() && v.into_string().is_empty() && u.into_string().is_empty(), 49); check(allocs() == a, 48); let mut q = Buffer::default(); ().render(&mut q); "".render(&mut q); None::<&str>.render(&mut q); frag!().render(&mut q); iter!([""]).render(&mut q); check(allocs() == a, 48); let k = lt(p(2)); let mut r = Buffer::from(k); check(allocs() == a + 1 && r.len() == p(2), 48); r.clear(); check(allocs() == a + 1, 48); let c = r.clone(); check(allocs() == a + 1 && c.capacity() == 0, 48); } check(live() == 0, 2) }
