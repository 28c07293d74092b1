//! order of evaluation and rendering (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{string::String, format, vec, vec::Vec};
fn idf<T>(v: T) -> T { v }
fn idb(v: bool) -> bool { v }
unsafe fn idu<T>(v: T) -> T { v }
struct S0s { f: &'static str }
static S0: S0s = S0s { f: "f0" };
impl S0s { fn m<T>(&self, v: T) -> T { v } }
struct P0<A, B> { a: A, b: B }
struct W0<T>(T);
impl<T: Render> Render for W0<T> { fn render(self, buffer: &mut Buffer) { self.0.render(buffer) } }
const K7: u8 = 7;
mod mk { pub const SEV: u8 = 7; }
const NM: [&str; 2] = ["n0", "n1"];
fn nm(s: &'static str) -> &'static str { s }
#[allow(non_upper_case_globals)] const id0: &str = "data-id0";
macro_rules! idm { ($e:expr) => { $e } }
macro_rules! const0 { ($e:expr) => {{ const C0: &str = $e; C0 }} }
#[laby] fn cmp0(#[rest] r: impl Render) -> impl Render { section!(r) }
#[laby] fn cmp1(a: impl Render, #[default("dflt")] b: impl Render) -> impl Render { frag!("{", a, "|", b, "}") }
#[laby] fn cmp2(title: impl Render, #[rest] body: impl Render) -> impl Render { frag!(h1!(title), body) }
use core::cell::Cell;
pub struct G { l: [Cell<u8>; 160], n: Cell<usize>, c: Cell<u8> }
impl G {
    fn new() -> G { G { l: [const { Cell::new(0) }; 160], n: Cell::new(0), c: Cell::new(0) } }
    fn up(&self) -> u8 { self.c.set(self.c.get() + 1); self.c.get() }
    fn nx(&self) -> V<'_> { self.e(self.up()) }
    fn tk(&self) -> bool { let k = self.up(); self.log(k); k & 1 == 1 }
    fn log(&self, k: u8) { self.l[self.n.get()].set(k); self.n.set(self.n.get() + 1); }
    fn e(&self, k: u8) -> V<'_> { self.log(k); V(self, k) }
    fn s<T>(&self, k: u8, v: T) -> T { self.log(k); v }
    fn same(&self, o: &G, code: u32) { check(self.n.get() == o.n.get(), code); for i in 0..o.n.get().min(self.n.get()) { check(self.l[i].get() == o.l[i].get(), code + 1) } }
}
pub struct V<'a>(&'a G, u8);
impl<'a> Render for V<'a> { fn render(self, b: &mut Buffer) { self.0.log(128 + self.1); b.push((b'A' + self.1 % 26) as char) } }
fn ev<'a>(g: &'a G, k: u8) -> V<'a> { g.e(k) }
fn nx<'a>(g: &'a G) -> V<'a> { g.nx() }
macro_rules! gn { ($g:ident) => { $g.nx() } }
macro_rules! ge { ($g:ident, $k:expr) => { $g.e($k) } }
#[laby] fn oc<'a>(a: impl Render + 'a, b: impl Render + 'a, #[rest] r: impl Render + 'a) -> impl Render + 'a { p!(b, r, id = a) }
macro_rules! go { ($b:ident, $g:ident, $n:expr, $ev:ident, $rd:ident) => {{
    let mut b = $b; let l = b.len(); let n = $n;
    $g.same(&$ev, 20); check(b.len() == l, 24);
    $g.n.set(0); out(&b);
    n.render(&mut b);
    $g.same(&$rd, 22); check_str(b.as_str(), 1);
}} }
case! {
    h_23_g000(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("B C D E"); go!(b, g, classes!(g.e(1), g.e(2), (g.e(3)), idf(g.e(4))), el, rl) }
    h_23_g001(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); if k { el.log(4); } else { el.log(5); } rl.log(129); rl.log(130); if k { rl.log(132); } else { rl.log(133); } lit("<details id=\"\u{1b}\" B=\"&lt;/p&gt;\">C&gt;"); if k { lit("E"); } else { lit("F"); } lit("</details>"); go!(b, g, details!((g.e(2), 1).0, id = "\u{1b}", g.e(1) = "</p>", ">", frag_match!(if idb(g.s(3, k)) { unsafe { idu(g.e(4)) } } else { Some(g.e(5)) })), el, rl) }
    h_23_g002(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); rl.log(129); rl.log(130); rl.log(132); rl.log(133); rl.log(134); lit("<dl><strong B=\"C\""); if k { lit(" n3"); } lit(">EF</strong>G</dl>"); go!(b, g, dl!(strong!(Some(g.e(4)), idf(g.e(1)) = { let q = g.e(2); q }, n3 = bool!(idb(g.s(3, k))), idf(g.e(5))), unsafe { idu(g.e(6)) }), el, rl) }
    h_23_g003(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!({ g.e(1) }, { g.e(2) }, (g.e(3), 1).0, loop { break g.e(4) }), el, rl) }
    h_23_g004(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); rl.log(129); rl.log(130); rl.log(131); rl.log(132); rl.log(133); lit("<dl B=\"&#39;\" C=\"D\" data-x=\"E\">F</dl>"); go!(b, g, dl!((g.e(1)) = "'", (g.e(2), 1).0 = (g.e(3)), idf(g.e(5)), "data-x" = g.e(4)), el, rl) }
    h_23_g005(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); rl.log(129); rl.log(130); rl.log(131); rl.log(132); rl.log(133); rl.log(134); rl.log(135); rl.log(136); lit("<u><b class=\"B\" C=\"D\"><area>E</b>F<h5 G=\"H\">I</h5></u>"); go!(b, g, u!(b!(class = idf(g.e(1)), area!(), Some(g.e(4)), ge!(g, 2) = W0(g.e(3))), [g.e(5)].into_iter().next(), h5!(unsafe { idu(g.e(6)) } = Some(g.e(7)), P0 { a: 1, b: g.e(8) }.b)), el, rl) }
    h_23_g006(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!((g.e(1)), g.e(2), g.e(3), idf(g.e(4))), el, rl) }
    h_23_g007(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); rl.log(129); rl.log(130); rl.log(131); rl.log(132); rl.log(133); rl.log(134); rl.log(135); rl.log(136); rl.log(137); lit("<sup B=\"C\" class=\"1.50\" D=\"E\"><tr id=\"F\">GH</tr>IJ</sup>"); go!(b, g, sup!((g.e(1)) = g.e(2), tr!(id = if true { g.e(5) } else { g.e(0) }, { g.e(6) }, ge!(g, 7)), (g.e(8)), class = "1.50", ev(&g, 9), idf(g.e(3)) = W0(g.e(4))), el, rl) }
    h_23_g008(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); rl.log(129); rl.log(130); if l { rl.log(132); } rl.log(133); lit("<del class=\"B\" data-x=\"C\""); if l { lit(" E"); } lit(">F</del>"); go!(b, g, del!(class = { g.e(1) }, frag!(frag!(), match 1 { _ => g.e(5) }), "data-x" = { g.e(2) }, [g.e(4)].into_iter().next() = bool!({ g.s(3, l) })), el, rl) }
    h_23_g009(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!(P0 { a: 1, b: g.e(1) }.b, P0 { a: 1, b: g.e(2) }.b, match 1 { _ => g.e(3) }, ev(&g, 4)), el, rl) }
    h_23_g010(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); if k { rl.log(130); } rl.log(131); if l { rl.log(133); } lit("<option"); if k { lit(" C"); } lit(" D"); if l { lit(" F"); } lit("></option>"); go!(b, g, option!([g.e(2)].into_iter().next() = bool!(!!g.s(1, k)), ge!(g, 3) = bool!(true), W0(g.e(5)) = bool!(if g.s(4, l) { true } else { false })), el, rl) }
    h_23_g011(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); rl.log(129); rl.log(130); rl.log(131); rl.log(132); if l { rl.log(134); } rl.log(135); rl.log(136); rl.log(137); lit("<address>BC<ins>D<rtc id=\"E\""); if l { lit(" G"); } lit(">HIJ</rtc></ins></address>"); go!(b, g, address!(frag!(W0(g.e(1))), idf(g.e(2)), ins!([g.e(3)].into_iter().next(), rtc!(id = P0 { a: 1, b: g.e(4) }.b, match 1 { _ => g.e(7) }, g.e(6) = bool!(g.s(5, l)), match 1 { _ => g.e(8) }, unsafe { idu(g.e(9)) }))), el, rl) }
    h_23_g012(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!(g.e(1), Some(g.e(2)), (g.e(3), 1).0, g.e(4)), el, rl) }
    h_23_g013(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); if k { el.log(2); } else { el.log(3); } el.log(4); if k { rl.log(130); } else { rl.log(131); } rl.log(132); lit("<map>"); if k { lit("C"); } else { lit("D"); } lit("E</map>"); go!(b, g, map!(frag_match!(if g.s(1, k) { W0(g.e(2)) } else { ge!(g, 3) }), idf(g.e(4))), el, rl) }
    h_23_g014(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); if k { rl.log(130); } rl.log(131); rl.log(132); rl.log(133); lit("<dialog"); if k { lit(" C"); } lit(" id=\"D\" data-x=\"0123456789abcdef&lt;\">E<div id=\"F\">\u{b}</div></dialog>"); go!(b, g, dialog!(g.e(2) = bool!(g.s(1, k)), ev(&g, 4), id = idf(g.e(3)), "data-x" = "0123456789abcdef<", div!(classes!(), id = loop { break g.e(5) }, "\u{b}")), el, rl) }
    h_23_g015(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!(if true { g.e(1) } else { g.e(0) }, (|| g.e(2))(), P0 { a: 1, b: g.e(3) }.b, W0(g.e(4))), el, rl) }
    h_23_g016(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); rl.log(129); rl.log(130); rl.log(131); rl.log(132); rl.log(133); rl.log(134); rl.log(135); rl.log(136); rl.log(137); rl.log(138); rl.log(139); rl.log(140); lit("<ins B=\"C\" D>EFGH<dd I=\"data-x\">JKL</dd>M</ins>"); go!(b, g, ins!(frag!(W0(g.e(4)), ge!(g, 5), (g.e(6), 1).0, [g.e(7)].into_iter().next()), g.e(1) = Some(g.e(2)), [g.e(3)].into_iter().next() = bool!(true), dd!([g.e(8)].into_iter().next() = "data-x", ev(&g, 9), P0 { a: 1, b: g.e(10) }.b, g.e(11)), ge!(g, 12)), el, rl) }
    h_23_g017(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); rl.log(129); rl.log(130); rl.log(131); if l { rl.log(133); } rl.log(134); rl.log(135); lit("<q B=\"C\" class=\"D\""); if l { lit(" F"); } lit(">-GH</q>"); go!(b, g, q!("-", (g.e(1), 1).0 = if true { g.e(2) } else { g.e(0) }, class = unsafe { idu(g.e(3)) }, ev(&g, 6), g.e(5) = bool!(g.s(4, l)), [g.e(7)].into_iter().next()), el, rl) }
    h_23_g018(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("B C D E"); go!(b, g, classes!(P0 { a: 1, b: g.e(1) }.b, Some(g.e(2)), ev(&g, 3), g.e(4)), el, rl) }
    h_23_g019(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); if k { rl.log(131); } rl.log(132); lit("<ul type=\"B\""); if k { lit(" D"); } lit(">E</ul>"); go!(b, g, ul!(r#type = loop { break g.e(1) }, [g.e(4)].into_iter().next(), [g.e(3)].into_iter().next() = bool!(!!g.s(2, k))), el, rl) }
    h_23_g020(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); if k { rl.log(130); } rl.log(131); rl.log(132); rl.log(133); lit("<abbr"); if k { lit(" C"); } lit(" D=\"E\">F</abbr>"); go!(b, g, abbr!((|| g.e(2))() = bool!((g.s(1, k))), match 1 { _ => g.e(3) } = P0 { a: 1, b: g.e(4) }.b, loop { break g.e(5) }), el, rl) }
    h_23_g021(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!(g.e(1), idf(g.e(2)), match 1 { _ => g.e(3) }, g.e(4)), el, rl) }
    h_23_g022(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); if k { rl.log(131); } rl.log(132); rl.log(133); lit("<map"); if l { lit(" n1"); } if k { lit(" D"); } lit(" type=\"&lt;!--\">\\EF</map>"); go!(b, g, map!(n1 = bool!(!!g.s(1, l)), "\\", { let q = g.e(4); q }, ge!(g, 3) = bool!((g.s(2, k))), g.e(5), r#type = "<!--"), el, rl) }
    h_23_g023(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); rl.log(129); rl.log(130); rl.log(131); if k { rl.log(133); } rl.log(134); rl.log(135); rl.log(136); rl.log(137); rl.log(138); rl.log(139); rl.log(140); lit("<footer B=\"e\u{301}\" data-x=\"C\">D<address class=\"x y\" id=\"/&gt;\""); if k { lit(" F"); } lit(">GHI</address>\r\n<output class=\"J\">KL<canvas>M</canvas></output></footer>"); go!(b, g, footer!(frag!((g.e(3), 1).0, address!(class = "x y", g.e(6), ge!(g, 7), ev(&g, 8), id = "/>", (g.e(5)) = bool!(!!g.s(4, k)))), "\r\n", ge!(g, 1) = "e\u{301}", output!({ let q = g.e(10); q }, class = g.e(9), loop { break g.e(11) }, canvas!(ev(&g, 12))), "data-x" = if true { g.e(2) } else { g.e(0) }), el, rl) }
    h_23_g024(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!(W0(g.e(1)), (g.e(2), 1).0, match 1 { _ => g.e(3) }, idf(g.e(4))), el, rl) }
    h_23_g025(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); if k { el.log(13); } else { el.log(14); } el.log(15); rl.log(129); rl.log(130); rl.log(131); rl.log(132); rl.log(133); rl.log(134); rl.log(135); rl.log(136); rl.log(137); rl.log(138); rl.log(139); if k { rl.log(141); } else { rl.log(142); } rl.log(143); lit("<h2 data-x=\"B\" C=\"D\" E=\"F\"><em G=\"H\" type=\"I\">JKL</em>"); if k { lit("N"); } else { lit("O"); } lit("P</h2>"); go!(b, g, h2!("data-x" = ge!(g, 1), em!(g.e(9), (|| g.e(6))() = loop { break g.e(7) }, g.e(10), P0 { a: 1, b: g.e(11) }.b, r#type = ge!(g, 8)), g.e(2) = (g.e(3), 1).0, frag_match!(if if g.s(12, k) { true } else { false } { idf(g.e(13)) } else { Some(g.e(14)) }), ge!(g, 4) = (g.e(5)), (|| g.e(15))()), el, rl) }
    h_23_g026(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); if l { rl.log(130); } if l { rl.log(132); } rl.log(133); rl.log(134); rl.log(136); rl.log(137); rl.log(138); rl.log(139); rl.log(140); lit("<p><table"); if l { lit(" C"); } if l { lit(" E"); } lit(" F=\"G\"><samp"); if l { lit(" n7"); } lit("></samp></table><p id=\"I\">JKL</p>M</p>"); go!(b, g, p!(table!(idf(g.e(2)) = bool!((g.s(1, l))), samp!(n7 = bool!(g.s(7, l) && true)), g.e(4) = bool!((g.s(3, l))), ev(&g, 5) = (g.e(6))), oc!((|| g.e(10))(), W0(g.e(11)), a = W0(g.e(8)), b = loop { break g.e(9) }), idf(g.e(12))), el, rl) }
    h_23_g027(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!({ let q = g.e(1); q }, loop { break g.e(2) }, P0 { a: 1, b: g.e(3) }.b, ev(&g, 4)), el, rl) }
    h_23_g028(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); let l = bool_(); el.log(1); el.log(2); if l { el.log(3); } else { el.log(4); } if l { rl.log(131); } else { rl.log(132); } lit("<html"); if k { lit(" n1"); } lit(">"); if l { lit("D"); } else { lit("E"); } lit("</html>"); go!(b, g, html!(n1 = bool!(idb(g.s(1, k))), frag_match!(if g.s(2, l) && true { loop { break g.e(3) } } else { Some(g.e(4)) })), el, rl) }
    h_23_g029(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); el.log(13); el.log(14); el.log(15); el.log(16); if l { el.log(17); } else { el.log(18); } el.log(19); if k { rl.log(131); } rl.log(133); rl.log(134); rl.log(135); if l { rl.log(137); } rl.log(138); rl.log(139); rl.log(140); rl.log(141); rl.log(142); rl.log(143); if l { rl.log(145); } else { rl.log(146); } rl.log(147); lit("<form"); if k { lit(" n1"); } if k { lit(" D"); } lit("><time><embed"); if l { lit(" n4"); } lit(">FG</time><dialog class=\"H\""); if l { lit(" J"); } lit(" K=\"L\">M N O P"); if l { lit("R"); } else { lit("S"); } lit("T</dialog></form>"); go!(b, g, form!(time!(embed!(n4 = bool!((g.s(4, l)))), { let q = g.e(5); q }, loop { break g.e(6) }), n1 = bool!(!!g.s(1, k)), (|| g.e(3))() = bool!(g.s(2, k)), dialog!(classes!({ let q = g.e(12); q }, (g.e(13)), match 1 { _ => g.e(14) }, W0(g.e(15))), class = g.e(7), frag_match!(if g.s(16, l) && true { ev(&g, 17) } else { P0 { a: 1, b: g.e(18) }.b }), { g.e(9) } = bool!({ g.s(8, l) }), (|| g.e(19))(), (|| g.e(10))() = P0 { a: 1, b: g.e(11) }.b)), el, rl) }
    h_23_g030(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("B C D E"); go!(b, g, classes!(Some(g.e(1)), { let q = g.e(2); q }, g.e(3), (g.e(4), 1).0), el, rl) }
    h_23_g031(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); rl.log(129); rl.log(130); rl.log(131); rl.log(132); rl.log(133); rl.log(134); lit("<tr B=\"C\" D=\"E\">FG</tr>"); go!(b, g, tr!(ev(&g, 1) = ev(&g, 2), loop { break g.e(3) } = match 1 { _ => g.e(4) }, g.e(5), ge!(g, 6)), el, rl) }
    h_23_g032(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); rl.log(130); rl.log(131); rl.log(132); rl.log(133); rl.log(134); lit("<cite data-x=\"&amp;\""); if l { lit(" n1"); } lit(" class=\"x y\">CD EFG<time"); if l { lit(" n7"); } lit("></time></cite>"); go!(b, g, cite!(ge!(g, 2), "data-x" = "&", n1 = bool!(if g.s(1, l) { true } else { false }), frag!(classes!(g.e(3), ge!(g, 4)), Some(g.e(5)), g.e(6)), class = "x y", time!(n7 = bool!(if g.s(7, l) { true } else { false }))), el, rl) }
    h_23_g033(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("B C D E"); go!(b, g, classes!(loop { break g.e(1) }, Some(g.e(2)), (g.e(3)), loop { break g.e(4) }), el, rl) }
    h_23_g034(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); if k { rl.log(130); } rl.log(131); rl.log(132); rl.log(133); rl.log(134); rl.log(135); rl.log(136); rl.log(137); lit("<dd><ol"); if k { lit(" C"); } lit(" D E=\"F\">GHI</ol>J<caption"); if k { lit(" n10"); } lit("></caption></dd>"); go!(b, g, dd!(ol!((g.e(2)) = bool!(g.s(1, k) && true), idf(g.e(3)) = bool!(true), { let q = g.e(6); q }, Some(g.e(7)), match 1 { _ => g.e(4) } = P0 { a: 1, b: g.e(5) }.b, W0(g.e(8))), (|| g.e(9))(), caption!(n10 = bool!((g.s(10, k))))), el, rl) }
    h_23_g035(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("<h5 B=\"C\" id=\"D\" id=\"0123456789abcdef\">E</h5>"); go!(b, g, h5!(P0 { a: 1, b: g.e(1) }.b = g.e(2), id = (|| g.e(3))(), if true { g.e(4) } else { g.e(0) }, id = "0123456789abcdef"), el, rl) }
    h_23_g036(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!({ g.e(1) }, if true { g.e(2) } else { g.e(0) }, g.e(3), g.e(4)), el, rl) }
    h_23_g037(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); rl.log(129); rl.log(130); rl.log(131); rl.log(132); rl.log(133); rl.log(134); rl.log(135); lit("<template type=\"B\"><col C=\"D\">EFGH</template>"); go!(b, g, template!(col!(ge!(g, 2) = { let q = g.e(3); q }), frag!((g.e(4), 1).0, (g.e(5)), [g.e(6)].into_iter().next(), ev(&g, 7)), r#type = g.e(1)), el, rl) }
    h_23_g038(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("<datalist>B<p id=\"C\">D</p>E</datalist>"); go!(b, g, datalist!(Some(g.e(1)), oc!(a = unsafe { idu(g.e(2)) }, b = unsafe { idu(g.e(3)) }), if true { g.e(4) } else { g.e(0) }), el, rl) }
    h_23_g039(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!(g.e(1), Some(g.e(2)), W0(g.e(3)), ge!(g, 4)), el, rl) }
    h_23_g040(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); rl.log(129); rl.log(130); rl.log(132); rl.log(133); rl.log(134); rl.log(135); rl.log(136); lit("<details B class=\"C\""); if l { lit(" n3"); } lit(">\r\n<p id=\"E\">FGH</p>I</details>"); go!(b, g, details!(idf(g.e(1)) = bool!(true), class = if true { g.e(2) } else { g.e(0) }, "\r\n", oc!(idf(g.e(6)), a = ev(&g, 4), b = { let q = g.e(5); q }, match 1 { _ => g.e(7) }), n3 = bool!((g.s(3, l))), idf(g.e(8))), el, rl) }
    h_23_g041(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); if l { el.log(5); } else { el.log(6); } rl.log(129); rl.log(130); rl.log(131); if l { rl.log(133); } else { rl.log(134); } lit("<main data-x=\"B\">CD"); if l { lit("F"); } else { lit("G"); } lit("</main>"); go!(b, g, main!(match 1 { _ => g.e(2) }, idf(g.e(3)), frag_match!(if (g.s(4, l)) { W0(g.e(5)) } else { Some(g.e(6)) }), "data-x" = { g.e(1) }), el, rl) }
    h_23_g042(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("B C D E"); go!(b, g, classes!(match 1 { _ => g.e(1) }, if true { g.e(2) } else { g.e(0) }, [g.e(3)].into_iter().next(), P0 { a: 1, b: g.e(4) }.b), el, rl) }
    h_23_g043(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); if l { el.log(6); } else { el.log(7); } el.log(8); rl.log(129); rl.log(130); if k { rl.log(132); } if l { rl.log(134); } else { rl.log(135); } rl.log(136); lit("<h6 id=\"B\" C"); if k { lit(" E"); } lit(">"); if l { lit("G"); } else { lit("H"); } lit("<canvas></canvas>I</h6>"); go!(b, g, h6!(id = W0(g.e(1)), frag_match!(if (g.s(5, l)) { (g.e(6)) } else { match 1 { _ => g.e(7) } }), (|| g.e(2))() = bool!(true), g.e(4) = bool!((g.s(3, k))), canvas!(), [g.e(8)].into_iter().next()), el, rl) }
    h_23_g044(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(132); lit("<body B=\"C\""); if l { lit(" n3"); } lit(">E<img id=\" \"></body>"); go!(b, g, body!((g.e(1), 1).0 = if true { g.e(2) } else { g.e(0) }, { g.e(4) }, img!(id = " "), n3 = bool!(g.s(3, l))), el, rl) }
    h_23_g045(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!({ g.e(1) }, unsafe { idu(g.e(2)) }, (|| g.e(3))(), (g.e(4), 1).0), el, rl) }
    h_23_g046(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); if l { rl.log(132); } lit("<cite B=\"C\""); if l { lit(" E"); } lit("></cite>"); go!(b, g, cite!((g.e(1), 1).0 = g.e(2), W0(g.e(4)) = bool!({ g.s(3, l) })), el, rl) }
    h_23_g047(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); if l { rl.log(130); } rl.log(131); rl.log(132); lit("<textarea"); if l { lit(" C"); } lit(" class=\"D\" id=\"E\"></textarea>"); go!(b, g, textarea!(P0 { a: 1, b: g.e(2) }.b = bool!(g.s(1, l)), classes!(), class = match 1 { _ => g.e(3) }, id = Some(g.e(4))), el, rl) }
    h_23_g048(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("B C D E"); go!(b, g, classes!(P0 { a: 1, b: g.e(1) }.b, g.e(2), ev(&g, 3), P0 { a: 1, b: g.e(4) }.b), el, rl) }
    h_23_g049(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); rl.log(129); rl.log(130); rl.log(131); rl.log(132); rl.log(134); lit("<rb B=\"C\" D=\"E\""); if k { lit(" n5"); } lit(">G\u{1f600}</rb>"); go!(b, g, rb!(g.e(1) = g.e(2), ge!(g, 6), { g.e(3) } = (g.e(4), 1).0, "\u{1f600}", n5 = bool!(idb(g.s(5, k)))), el, rl) }
    h_23_g050(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); el.log(13); el.log(14); el.log(15); el.log(16); el.log(17); el.log(18); rl.log(130); if l { rl.log(132); } rl.log(133); if l { rl.log(135); } rl.log(136); rl.log(137); rl.log(138); rl.log(139); if l { rl.log(141); } rl.log(142); rl.log(143); rl.log(144); rl.log(145); rl.log(146); lit("<option"); if l { lit(" n1"); } lit(" type=\"C\""); if l { lit(" E"); } lit("><strong F"); if l { lit(" H"); } lit(" I=\"J\"><datalist K=\"\u{1f600}\" L=\"\\\""); if l { lit(" N"); } lit(">OPQ</datalist>R</strong>S</option>"); go!(b, g, option!(strong!(datalist!((g.e(14), 1).0, idf(g.e(10)) = "\u{1f600}", ev(&g, 11) = "\\", match 1 { _ => g.e(15) }, idf(g.e(13)) = bool!(idb(g.s(12, l))), { let q = g.e(16); q }), (|| g.e(5))() = bool!(true), [g.e(7)].into_iter().next() = bool!(if g.s(6, l) { true } else { false }), idf(g.e(8)) = idf(g.e(9)), (|| g.e(17))()), n1 = bool!(if g.s(1, l) { true } else { false }), match 1 { _ => g.e(18) }, r#type = (|| g.e(2))(), g.e(4) = bool!({ g.s(3, l) })), el, rl) }
    h_23_g051(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("B C D E"); go!(b, g, classes!(Some(g.e(1)), loop { break g.e(2) }, idf(g.e(3)), ev(&g, 4)), el, rl) }
    h_23_g052(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); rl.log(129); rl.log(130); rl.log(131); rl.log(132); rl.log(133); lit("<select type=\"B\" C=\"D\" E=\"F\"></select>"); go!(b, g, select!(r#type = (g.e(1)), (|| g.e(2))() = W0(g.e(3)), g.e(4) = idf(g.e(5))), el, rl) }
    h_23_g053(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("<aside data-x=\"B\" C=\"D\">E\r\n</aside>"); go!(b, g, aside!(g.e(4), "data-x" = loop { break g.e(1) }, (|| g.e(2))() = [g.e(3)].into_iter().next(), "\r\n"), el, rl) }
    h_23_g054(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!(idf(g.e(1)), { let q = g.e(2); q }, g.e(3), { let q = g.e(4); q }), el, rl) }
    h_23_g055(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); rl.log(129); rl.log(130); rl.log(132); rl.log(133); lit("<textarea B=\"C\""); if k { lit(" n3"); } lit(" E=\"F\"></textarea>"); go!(b, g, textarea!(g.e(1) = match 1 { _ => g.e(2) }, n3 = bool!(!!g.s(3, k)), { g.e(4) } = g.e(5)), el, rl) }
    h_23_g056(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("<iframe data-x=\"世界\" data-x=\"B\" C=\"D\">E<track></iframe>"); go!(b, g, iframe!({ g.e(4) }, "data-x" = "世界", "data-x" = g.e(1), match 1 { _ => g.e(2) } = if true { g.e(3) } else { g.e(0) }, track!()), el, rl) }
    h_23_g057(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("B C D E"); go!(b, g, classes!([g.e(1)].into_iter().next(), W0(g.e(2)), g.e(3), idf(g.e(4))), el, rl) }
    h_23_g058(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(131); rl.log(132); lit("<li"); if k { lit(" n1"); } if k { lit(" n2"); } lit(" D=\"E\"></li>"); go!(b, g, li!(n1 = bool!(idb(g.s(1, k))), n2 = bool!(g.s(2, k) && true), P0 { a: 1, b: g.e(3) }.b = g.e(4)), el, rl) }
    h_23_g059(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); rl.log(129); rl.log(130); if k { rl.log(132); } rl.log(133); rl.log(134); rl.log(135); lit("<b id=\"\" type=\"B\">C<form"); if k { lit(" E"); } lit(">FG</form>H</b>"); go!(b, g, b!(id = "", r#type = ge!(g, 1), unsafe { idu(g.e(2)) }, form!([g.e(4)].into_iter().next() = bool!(!!g.s(3, k)), frag!({ let q = g.e(5); q }, (g.e(6)))), W0(g.e(7))), el, rl) }
    h_23_g060(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!({ let q = g.e(1); q }, (|| g.e(2))(), idf(g.e(3)), P0 { a: 1, b: g.e(4) }.b), el, rl) }
    h_23_g061(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); rl.log(129); rl.log(130); rl.log(131); rl.log(132); rl.log(133); if k { rl.log(135); } rl.log(136); lit("<h4 data-x=\"B\" class=\"C\">D<head E=\"F\""); if k { lit(" H"); } lit(">I</head></h4>"); go!(b, g, h4!(idf(g.e(3)), "data-x" = Some(g.e(1)), class = (g.e(2)), head!((g.e(4), 1).0 = (g.e(5)), { let q = g.e(8); q }, idf(g.e(7)) = bool!(idb(g.s(6, k))))), el, rl) }
    h_23_g062(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); el.log(13); el.log(14); el.log(15); el.log(16); if k { rl.log(130); } rl.log(131); rl.log(132); rl.log(133); if k { rl.log(135); } rl.log(136); if k { rl.log(139); } rl.log(140); rl.log(141); rl.log(142); rl.log(143); rl.log(144); lit("<dialog"); if k { lit(" C"); } lit(">DEF<i"); if k { lit(" H"); } lit(" type=\"I\""); if k { lit(" n9"); } lit("><rb"); if k { lit(" L"); } lit(" M=\"N\">OP</rb>Q</i></dialog>"); go!(b, g, dialog!(P0 { a: 1, b: g.e(2) }.b = bool!(idb(g.s(1, k))), frag!({ g.e(3) }, (g.e(4)), g.e(5)), i!(rb!(g.e(14), Some(g.e(11)) = bool!(!!g.s(10, k)), g.e(15), P0 { a: 1, b: g.e(12) }.b = loop { break g.e(13) }), loop { break g.e(16) }, loop { break g.e(7) } = bool!(g.s(6, k)), r#type = Some(g.e(8)), n9 = bool!((g.s(9, k))))), el, rl) }
    h_23_g063(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("B C D E"); go!(b, g, classes!((g.e(1), 1).0, idf(g.e(2)), { let q = g.e(3); q }, { g.e(4) }), el, rl) }
    h_23_g064(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); rl.log(129); rl.log(131); rl.log(132); if l { rl.log(134); } rl.log(135); if k { rl.log(137); } rl.log(138); rl.log(139); lit("<ul B=\"\u{2028}\""); if l { lit(" n2"); } lit(" D=\"E\"><colgroup"); if l { lit(" G"); } lit(" type=\"H\""); if k { lit(" J"); } lit(">K</colgroup>L</ul>"); go!(b, g, ul!({ let q = g.e(1); q } = "\u{2028}", colgroup!({ g.e(10) }, match 1 { _ => g.e(6) } = bool!(idb(g.s(5, l))), r#type = unsafe { idu(g.e(7)) }, ge!(g, 9) = bool!(!!g.s(8, k))), ge!(g, 11), n2 = bool!(if g.s(2, l) { true } else { false }), [g.e(3)].into_iter().next() = W0(g.e(4))), el, rl) }
    h_23_g065(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(3); el.log(4); el.log(5); el.log(6); rl.log(129); rl.log(131); if k { rl.log(133); } rl.log(134); lit("<datalist>B<blockquote data-x=\"D\""); if k { lit(" F"); } lit(">G</blockquote></datalist>"); go!(b, g, datalist!(ev(&g, 1), blockquote!(Some(g.e(2)) = bool!(false), "data-x" = g.e(3), idf(g.e(5)) = bool!(g.s(4, k)), g.e(6))), el, rl) }
    h_23_g066(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("B C D E"); go!(b, g, classes!((g.e(1), 1).0, loop { break g.e(2) }, (|| g.e(3))(), Some(g.e(4))), el, rl) }
    h_23_g067(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("<dialog><p id=\"B\">CDE</p></dialog>"); go!(b, g, dialog!(oc!(W0(g.e(3)), a = (g.e(1), 1).0, (g.e(4), 1).0, b = (|| g.e(2))())), el, rl) }
    h_23_g068(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); if k { rl.log(130); } rl.log(131); rl.log(132); rl.log(133); lit("<nav"); if k { lit(" C"); } lit(" type=\"#\"><s id=\"D\"><track E data-x=\"F\"></s><col></nav>"); go!(b, g, nav!([g.e(2)].into_iter().next() = bool!(if g.s(1, k) { true } else { false }), s!(track!(ge!(g, 4) = bool!(true), "data-x" = loop { break g.e(5) }), id = [g.e(3)].into_iter().next()), r#type = "#", col!()), el, rl) }
    h_23_g069(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!(loop { break g.e(1) }, match 1 { _ => g.e(2) }, g.e(3), loop { break g.e(4) }), el, rl) }
    h_23_g070(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); rl.log(129); rl.log(130); rl.log(131); rl.log(132); rl.log(133); lit("<article B=\"it&#39;s\" C=\"D\" E>F</article>"); go!(b, g, article!(idf(g.e(1)) = "it's", ge!(g, 2) = Some(g.e(3)), if true { g.e(5) } else { g.e(0) }, (g.e(4)) = bool!(true)), el, rl) }
    h_23_g071(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); rl.log(129); rl.log(130); if l { rl.log(132); } if l { rl.log(134); } rl.log(135); rl.log(136); rl.log(137); rl.log(138); lit("<header B=\"C\""); if l { lit(" E"); } lit("><source"); if l { lit(" G"); } lit("><p id=\"H\">IJK</p></header>"); go!(b, g, header!(match 1 { _ => g.e(1) } = (|| g.e(2))(), source!(Some(g.e(6)) = bool!({ g.s(5, l) })), g.e(4) = bool!(g.s(3, l)), oc!(if true { g.e(9) } else { g.e(0) }, b = idf(g.e(8)), W0(g.e(10)), a = g.e(7))), el, rl) }
    h_23_g072(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!(ev(&g, 1), if true { g.e(2) } else { g.e(0) }, (g.e(3)), ge!(g, 4)), el, rl) }
    h_23_g073(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(7); el.log(8); el.log(9); rl.log(129); rl.log(130); rl.log(131); rl.log(132); rl.log(133); rl.log(135); rl.log(136); rl.log(137); lit("<form data-x=\"B\" type=\"C\">\u{1f600}<code D=\"E\" id=\"F\">HI</code>J</form>"); go!(b, g, form!("data-x" = W0(g.e(1)), "\u{1f600}", code!(idf(g.e(3)) = (g.e(4)), match 1 { _ => g.e(7) }, id = [g.e(5)].into_iter().next(), ge!(g, 8), loop { break g.e(6) } = bool!(false)), r#type = unsafe { idu(g.e(2)) }, (g.e(9), 1).0), el, rl) }
    h_23_g074(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); el.log(13); if k { rl.log(130); } rl.log(131); rl.log(132); rl.log(133); rl.log(134); rl.log(135); rl.log(137); rl.log(138); rl.log(139); rl.log(140); rl.log(141); lit("<button"); if k { lit(" C"); } lit(" D=\"E\" type=\"F\"><param G=\"H\""); if l { lit(" n8"); } lit(">r#&quot;<label J=\"K\" L=\"M\">N{}</label></button>"); go!(b, g, button!(unsafe { idu(g.e(2)) } = bool!(!!g.s(1, k)), param!(match 1 { _ => g.e(6) } = match 1 { _ => g.e(7) }, n8 = bool!({ g.s(8, l) })), "r#\"", if true { g.e(3) } else { g.e(0) } = g.e(4), label!(match 1 { _ => g.e(13) }, ge!(g, 9) = g.e(10), "{}", ev(&g, 11) = W0(g.e(12))), r#type = g.e(5)), el, rl) }
    h_23_g075(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!((g.e(1), 1).0, ev(&g, 2), ge!(g, 3), idf(g.e(4))), el, rl) }
    h_23_g076(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); if k { el.log(6); } else { el.log(7); } rl.log(129); rl.log(130); rl.log(131); rl.log(132); if k { rl.log(134); } else { rl.log(135); } lit("<code B=\"C\" id=\"\"><bdo>DE</bdo>"); if k { lit("G"); } else { lit("H"); } lit("</code>"); go!(b, g, code!(bdo!(idf(g.e(3)), { let q = g.e(4); q }), (g.e(1), 1).0 = Some(g.e(2)), frag_match!(if if g.s(5, k) { true } else { false } { if true { g.e(6) } else { g.e(0) } } else { { g.e(7) } }), id = ""), el, rl) }
    h_23_g077(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("<th class=\"B\" C=\"D\" data-x=\"E\"></th>"); go!(b, g, th!(class = W0(g.e(1)), (g.e(2)) = (g.e(3)), "data-x" = [g.e(4)].into_iter().next()), el, rl) }
    h_23_g078(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("B C D E"); go!(b, g, classes!(ev(&g, 1), (g.e(2)), [g.e(3)].into_iter().next(), [g.e(4)].into_iter().next()), el, rl) }
    h_23_g079(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); rl.log(129); rl.log(130); rl.log(131); rl.log(132); rl.log(133); if k { rl.log(135); } rl.log(136); rl.log(137); rl.log(138); lit("<caption B=\"C\" D>EF<progress"); if k { lit(" H"); } lit(" id=\"I\">J</progress>K</caption>"); go!(b, g, caption!(frag!(match 1 { _ => g.e(4) }, P0 { a: 1, b: g.e(5) }.b), progress!([g.e(7)].into_iter().next() = bool!({ g.s(6, k) }), id = (g.e(8)), Some(g.e(9))), idf(g.e(10)), idf(g.e(1)) = g.e(2), ev(&g, 3) = bool!(true)), el, rl) }
    h_23_g080(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); if l { rl.log(130); } rl.log(131); rl.log(132); rl.log(133); rl.log(134); rl.log(135); lit("<legend"); if l { lit(" C"); } lit("><p id=\"D\">EFG</p>H</legend>"); go!(b, g, legend!((g.e(2)) = bool!({ g.s(1, l) }), oc!({ let q = g.e(5); q }, b = ge!(g, 4), a = (g.e(3), 1).0, (|| g.e(6))()), match 1 { _ => g.e(7) }), el, rl) }
    h_23_g081(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("B C D E"); go!(b, g, classes!(unsafe { idu(g.e(1)) }, idf(g.e(2)), [g.e(3)].into_iter().next(), if true { g.e(4) } else { g.e(0) }), el, rl) }
    h_23_g082(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); if k { rl.log(130); } if l { rl.log(132); } if l { rl.log(134); } rl.log(135); rl.log(136); rl.log(137); lit("<article"); if k { lit(" C"); } if l { lit(" E"); } if l { lit(" G"); } lit("><table id=\"H\">I</table>J<picture></picture></article>"); go!(b, g, article!(table!(Some(g.e(8)), id = idf(g.e(7))), g.e(2) = bool!(g.s(1, k) && true), (g.e(9), 1).0, ev(&g, 4) = bool!(g.s(3, l) && true), picture!(), (g.e(6), 1).0 = bool!((g.s(5, l)))), el, rl) }
    h_23_g083(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); rl.log(130); rl.log(131); rl.log(132); rl.log(133); rl.log(134); rl.log(135); if l { rl.log(137); } if k { rl.log(139); } rl.log(140); lit("<table"); if l { lit(" n1"); } lit("><iframe C=\"data-x\" D=\"E\" F=\"&lt;!--\">GH</iframe><dt"); if l { lit(" J"); } if k { lit(" L"); } lit(" class=\"UP\">M</dt></table>"); go!(b, g, table!(iframe!(Some(g.e(6)), { let q = g.e(2); q } = "data-x", { let q = g.e(3); q } = ge!(g, 4), { g.e(7) }, ev(&g, 5) = "<!--"), dt!(loop { break g.e(9) } = bool!(idb(g.s(8, l))), g.e(11) = bool!(if g.s(10, k) { true } else { false }), Some(g.e(12)), class = "UP"), n1 = bool!(idb(g.s(1, l)))), el, rl) }
    h_23_g084(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!((g.e(1), 1).0, { g.e(2) }, ge!(g, 3), { g.e(4) }), el, rl) }
    h_23_g085(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); rl.log(129); rl.log(130); rl.log(131); rl.log(132); rl.log(133); if k { rl.log(135); } rl.log(136); lit("<abbr B=\"C\" type=\"D\"><h6 E=\"F\""); if k { lit(" H"); } lit(">I</h6></abbr>"); go!(b, g, abbr!(if true { g.e(1) } else { g.e(0) } = g.e(2), h6!(ev(&g, 4) = ev(&g, 5), match 1 { _ => g.e(7) } = bool!({ g.s(6, k) }), g.e(8)), r#type = unsafe { idu(g.e(3)) }), el, rl) }
    h_23_g086(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); rl.log(129); if k { rl.log(131); } rl.log(132); rl.log(133); rl.log(134); rl.log(135); rl.log(136); rl.log(137); lit("<aside>B<li"); if k { lit(" D"); } lit(" id=\"E\" F=\"G\">H\rI</li>J</aside>"); go!(b, g, aside!({ g.e(1) }, li!(ge!(g, 3) = bool!(g.s(2, k)), g.e(7), id = ge!(g, 4), [g.e(5)].into_iter().next() = Some(g.e(6)), "\r", match 1 { _ => g.e(8) }), unsafe { idu(g.e(9)) }), el, rl) }
    h_23_g087(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("B C D E"); go!(b, g, classes!(g.e(1), g.e(2), unsafe { idu(g.e(3)) }, (g.e(4), 1).0), el, rl) }
    h_23_g088(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); if k { el.log(2); } else { el.log(3); } el.log(4); if k { rl.log(130); } else { rl.log(131); } rl.log(132); lit("<span>"); if k { lit("C"); } else { lit("D"); } lit("E</span>"); go!(b, g, span!(frag_match!(if g.s(1, k) && true { unsafe { idu(g.e(2)) } } else { loop { break g.e(3) } }), (g.e(4), 1).0), el, rl) }
    h_23_g089(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); if k { el.log(6); } else { el.log(7); } rl.log(129); if l { rl.log(131); } rl.log(132); if k { rl.log(134); } else { rl.log(135); } lit("<template data-x=\"B\""); if l { lit(" D"); } lit(">E"); if k { lit("G"); } else { lit("H"); } lit("``</template>"); go!(b, g, template!("data-x" = { let q = g.e(1); q }, match 1 { _ => g.e(4) }, frag_match!(if { g.s(5, k) } { { g.e(6) } } else { { g.e(7) } }), "``", { g.e(3) } = bool!(if g.s(2, l) { true } else { false })), el, rl) }
    h_23_g090(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!(W0(g.e(1)), g.e(2), (g.e(3)), ev(&g, 4)), el, rl) }
    h_23_g091(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let l = bool_(); el.log(1); el.log(2); el.log(3); if l { el.log(4); } else { el.log(5); } el.log(6); rl.log(129); rl.log(130); if l { rl.log(132); } else { rl.log(133); } rl.log(134); lit("<h6 class=\"B\">C"); if l { lit("E"); } else { lit("F"); } lit("G</h6>"); go!(b, g, h6!(idf(g.e(2)), frag_match!(if !!g.s(3, l) { g.e(4) } else { P0 { a: 1, b: g.e(5) }.b }), Some(g.e(6)), class = [g.e(1)].into_iter().next()), el, rl) }
    h_23_g092(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); let l = bool_(); el.log(1); el.log(2); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); el.log(13); el.log(14); rl.log(129); rl.log(130); rl.log(132); if l { rl.log(134); } if k { rl.log(136); } rl.log(137); rl.log(138); rl.log(139); rl.log(140); rl.log(141); rl.log(142); lit("<rtc B=\"C\" class=\"E\"><ol"); if l { lit(" G"); } if k { lit(" I"); } lit(">J<header data-x=\"K\" data-x=\"0123456789abcdef&lt;\">LM</header><dfn>NO</dfn></ol></rtc>"); go!(b, g, rtc!(g.e(1) = idf(g.e(2)), idf(g.e(3)) = bool!(false), classes!(), class = W0(g.e(4)), ol!(match 1 { _ => g.e(9) }, ev(&g, 6) = bool!({ g.s(5, l) }), header!(ge!(g, 11), loop { break g.e(12) }, "data-x" = idf(g.e(10)), "data-x" = "0123456789abcdef<"), { g.e(8) } = bool!(if g.s(7, k) { true } else { false }), dfn!(g.e(13), [g.e(14)].into_iter().next()))), el, rl) }
    h_23_g093(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!((g.e(1), 1).0, { let q = g.e(2); q }, g.e(3), { g.e(4) }), el, rl) }
    h_23_g094(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); if l { el.log(8); } else { el.log(9); } el.log(10); if l { rl.log(131); } rl.log(132); rl.log(133); rl.log(134); if l { rl.log(136); } else { rl.log(137); } rl.log(138); lit("<ins"); if k { lit(" n1"); } if l { lit(" D"); } lit(" type=\"&amp;\"><i>EFG</i>"); if l { lit("I"); } else { lit("J"); } lit("K</ins>"); go!(b, g, ins!(n1 = bool!(g.s(1, k)), if true { g.e(3) } else { g.e(0) } = bool!(idb(g.s(2, l))), i!(W0(g.e(4)), W0(g.e(5)), ev(&g, 6)), r#type = "&", frag_match!(if g.s(7, l) { idf(g.e(8)) } else { match 1 { _ => g.e(9) } }), { g.e(10) }), el, rl) }
    h_23_g095(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("<template data-x=\"B\">CD&quot;EUP</template>"); go!(b, g, template!(if true { g.e(2) } else { g.e(0) }, idf(g.e(3)), frag!("\"", (g.e(4), 1).0, "UP"), "data-x" = unsafe { idu(g.e(1)) }), el, rl) }
    h_23_g096(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("B C D E"); go!(b, g, classes!({ let q = g.e(1); q }, { g.e(2) }, idf(g.e(3)), unsafe { idu(g.e(4)) }), el, rl) }
    h_23_g097(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(130); rl.log(131); rl.log(132); lit("<dd type=\"e\u{301}\""); if l { lit(" n1"); } lit(">CDE</dd>"); go!(b, g, dd!(ev(&g, 2), ev(&g, 3), r#type = "e\u{301}", n1 = bool!(g.s(1, l) && true), Some(g.e(4))), el, rl) }
    h_23_g098(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); if l { el.log(5); } else { el.log(6); } el.log(7); if k { el.log(8); } else { el.log(9); } el.log(10); if k { rl.log(131); } if l { rl.log(133); } else { rl.log(134); } if k { rl.log(136); } else { rl.log(137); } rl.log(138); lit("<audio"); if k { lit(" n1"); } if k { lit(" D"); } lit(">"); if l { lit("F"); } else { lit("G"); } if k { lit("I"); } else { lit("J"); } lit("K</audio>"); go!(b, g, audio!(frag!(frag_match!(if (g.s(4, l)) { idf(g.e(5)) } else { (g.e(6)) }), frag_match!(if g.s(7, k) && true { (|| g.e(8))() } else { { g.e(9) } }), P0 { a: 1, b: g.e(10) }.b), n1 = bool!((g.s(1, k))), unsafe { idu(g.e(3)) } = bool!(!!g.s(2, k))), el, rl) }
    h_23_g099(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!(g.e(1), unsafe { idu(g.e(2)) }, match 1 { _ => g.e(3) }, Some(g.e(4))), el, rl) }
    h_23_g100(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); rl.log(129); rl.log(130); rl.log(131); rl.log(132); rl.log(133); rl.log(134); lit("<kbd>B<p type=\"C\" type=\"D\">EF</p>G</kbd>"); go!(b, g, kbd!(ev(&g, 1), p!(r#type = g.e(2), g.e(4), match 1 { _ => g.e(5) }, r#type = [g.e(3)].into_iter().next()), loop { break g.e(6) }), el, rl) }
    h_23_g101(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let l = bool_(); el.log(2); el.log(3); el.log(4); el.log(5); rl.log(130); rl.log(131); if l { rl.log(133); } lit("<nav C=\"D\""); if l { lit(" F"); } lit("></nav>"); go!(b, g, nav!(match 1 { _ => g.e(1) } = bool!(false), g.e(2) = if true { g.e(3) } else { g.e(0) }, g.e(5) = bool!(!!g.s(4, l))), el, rl) }
    h_23_g102(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("B C D E"); go!(b, g, classes!(if true { g.e(1) } else { g.e(0) }, match 1 { _ => g.e(2) }, ge!(g, 3), ge!(g, 4)), el, rl) }
    h_23_g103(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); if l { rl.log(130); } rl.log(133); rl.log(134); rl.log(135); rl.log(136); rl.log(137); rl.log(138); lit("<form"); if l { lit(" C"); } if k { lit(" n3"); } lit("><canvas"); if k { lit(" n4"); } lit(">FG</canvas><p id=\"H\">IJK</p></form>"); go!(b, g, form!(unsafe { idu(g.e(2)) } = bool!((g.s(1, l))), canvas!({ g.e(5) }, Some(g.e(6)), n4 = bool!(if g.s(4, k) { true } else { false })), oc!(b = [g.e(8)].into_iter().next(), (g.e(9)), a = unsafe { idu(g.e(7)) }, [g.e(10)].into_iter().next()), n3 = bool!((g.s(3, k)))), el, rl) }
    h_23_g104(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); if k { el.log(4); } else { el.log(5); } el.log(6); rl.log(129); rl.log(130); if k { rl.log(132); } else { rl.log(133); } rl.log(134); lit("<code type=\"/&gt;\" id=\"世界\" id=\"B\">C"); if k { lit("E"); } else { lit("F"); } lit("G</code>"); go!(b, g, code!(r#type = "/>", { g.e(2) }, id = "世界", frag_match!(if if g.s(3, k) { true } else { false } { match 1 { _ => g.e(4) } } else { (g.e(5), 1).0 }), [g.e(6)].into_iter().next(), id = (g.e(1), 1).0), el, rl) }
    h_23_g105(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("BCDE"); go!(b, g, frag!(W0(g.e(1)), ev(&g, 2), g.e(3), [g.e(4)].into_iter().next()), el, rl) }
    h_23_g106(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let l = bool_(); el.log(1); if l { el.log(2); } else { el.log(3); } el.log(4); if l { rl.log(130); } else { rl.log(131); } rl.log(132); lit("<rtc>"); if l { lit("C"); } else { lit("D"); } lit("E</rtc>"); go!(b, g, rtc!(frag_match!(if idb(g.s(1, l)) { W0(g.e(2)) } else { if true { g.e(3) } else { g.e(0) } }), { g.e(4) }), el, rl) }
    h_23_g107(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); rl.log(129); rl.log(130); rl.log(131); rl.log(132); rl.log(133); rl.log(134); rl.log(135); lit("<progress><h5 class=\"B\">C<blockquote D=\"E\" F=\"G\">H</blockquote></h5></progress>"); go!(b, g, progress!(h5!(class = ev(&g, 1), W0(g.e(2)), blockquote!(match 1 { _ => g.e(7) }, W0(g.e(3)) = g.e(4), Some(g.e(5)) = if true { g.e(6) } else { g.e(0) }))), el, rl) }
    h_23_g108(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(129); rl.log(130); rl.log(131); rl.log(132); lit("B C D E"); go!(b, g, classes!(if true { g.e(1) } else { g.e(0) }, { let q = g.e(2); q }, (g.e(3)), unsafe { idu(g.e(4)) }), el, rl) }
    h_23_g109(b) { let g = G::new(); let el = G::new(); let rl = G::new(); let k = bool_(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); if k { rl.log(130); } rl.log(131); lit("<hgroup"); if k { lit(" C"); } lit(" type=\"&lt;!--\" data-x=\"D\"><q"); if k { lit(" n4"); } if l { lit(" n5"); } lit("></q></hgroup>"); go!(b, g, hgroup!({ let q = g.e(2); q } = bool!(g.s(1, k) && true), r#type = "<!--", q!(n4 = bool!({ g.s(4, k) }), n5 = bool!({ g.s(5, l) })), "data-x" = ge!(g, 3)), el, rl) }
    h_23_s000(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); lit("B C D E"); go!(b, g, classes!(g.nx(), g.nx(), g.nx(), g.nx()), el, rl) }
    h_23_s001(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); if true { rl.log(128 + 2); } rl.log(128 + 3); rl.log(128 + 4); lit("<textarea"); if true { lit(" C"); } lit(" id=\"D\" E></textarea>"); go!(b, g, textarea!(W0(g.nx()) = bool!(!!g.tk()), id = W0(g.nx()), W0(g.nx()) = bool!(true)), el, rl) }
    h_23_s002(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); lit("<samp B C=\"D\" E=\"q\">F</samp>"); go!(b, g, samp!(W0(g.nx()) = bool!(true), W0(g.nx()), W0(g.nx()) = W0(g.nx()), W0(g.nx()) = "q"), el, rl) }
    h_23_s003(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); if true { rl.log(128 + 2); } rl.log(128 + 4); lit("<td"); if true { lit(" C"); } if true { lit(" n3"); } lit(">E</td>"); go!(b, g, td!(gn!(g), gn!(g) = bool!({ g.tk() }), n3 = bool!({ g.tk() })), el, rl) }
    h_23_s004(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); rl.log(128 + 6); lit("B C D EFG"); go!(b, g, classes!((g.nx()), (g.nx()), (g.nx()), frag!((g.nx()), (g.nx()), (g.nx()))), el, rl) }
    h_23_s005(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); rl.log(128 + 6); lit("<bdi B=\"C\"><p id=\"D\">EFG</p></bdi>"); go!(b, g, bdi!(if true { g.nx() } else { g.e(0) } = if true { g.nx() } else { g.e(0) }, oc!(if true { g.nx() } else { g.e(0) }, a = if true { g.nx() } else { g.e(0) }, b = if true { g.nx() } else { g.e(0) }, if true { g.nx() } else { g.e(0) })), el, rl) }
    h_23_s006(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); rl.log(128 + 1); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); lit("<p type=\"B\""); if false { lit(" n2"); } lit(">DEF</p>"); go!(b, g, p!(r#type = g.nx(), g.nx(), n2 = bool!({ g.tk() }), g.nx(), g.nx()), el, rl) }
    h_23_s007(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); lit("<option>B C DE</option>"); go!(b, g, option!(classes!([g.nx()].into_iter().next(), [g.nx()].into_iter().next(), [g.nx()].into_iter().next()), [g.nx()].into_iter().next()), el, rl) }
    h_23_s008(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); rl.log(128 + 6); rl.log(128 + 7); rl.log(128 + 8); lit("<code"); if true { lit(" n1"); } lit(" C=\"q\">D</code> <ol data-x=\"E\">qFG</ol> H I"); go!(b, g, classes!(code!(Some(g.nx()), n1 = bool!(g.tk()), Some(g.nx()) = "q"), ol!("q", Some(g.nx()), Some(g.nx()), "data-x" = Some(g.nx())), Some(g.nx()), Some(g.nx())), el, rl) }
    h_23_s009(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); rl.log(128 + 1); rl.log(128 + 2); if true { rl.log(128 + 4); } rl.log(128 + 5); rl.log(128 + 6); lit("<dfn B=\"C\""); if true { lit(" E"); } lit(" type=\"F\">G</dfn>"); go!(b, g, dfn!(gn!(g) = gn!(g), gn!(g), gn!(g) = bool!({ g.tk() }), r#type = gn!(g)), el, rl) }
    h_23_s010(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); if true { rl.log(128 + 2); } if true { rl.log(128 + 4); } lit("<em"); if true { lit(" C"); } if true { lit(" E"); } lit("></em>"); go!(b, g, em!(if true { g.nx() } else { g.e(0) } = bool!(g.tk()), if true { g.nx() } else { g.e(0) } = bool!(g.tk())), el, rl) }
    h_23_s011(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); if true { rl.log(128 + 6); } lit("<strong>BCDq<rp id=\"E\""); if true { lit(" G"); } lit("></rp></strong>"); go!(b, g, strong!(frag!(nx(&g), (|| g.nx())(), classes!(nx(&g)), "q"), rp!(id = nx(&g), (|| g.nx())() = bool!(g.tk()))), el, rl) }
    h_23_s012(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); lit("B C D E"); go!(b, g, classes!({ let q = g.nx(); q }, { let q = g.nx(); q }, { let q = g.nx(); q }, { let q = g.nx(); q }), el, rl) }
    h_23_s013(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); lit("<dfn class=\"B\" id=\"C\"><p id=\"D\">EF</p></dfn>"); go!(b, g, dfn!(class = [g.nx()].into_iter().next(), id = g.nx(), oc!(b = [g.nx()].into_iter().next(), a = [g.nx()].into_iter().next(), g.nx())), el, rl) }
    h_23_s014(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); rl.log(128 + 1); if false { rl.log(128 + 3); } if false { rl.log(128 + 5); } lit("<h5 B=\"q\""); if false { lit(" D"); } if false { lit(" F"); } lit("></h5>"); go!(b, g, h5!(if true { g.nx() } else { g.e(0) } = "q", if true { g.nx() } else { g.e(0) } = bool!(!!g.tk()), if true { g.nx() } else { g.e(0) } = bool!(!!g.tk())), el, rl) }
    h_23_s015(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); lit("<kbd B=\"C\">DE</kbd>"); go!(b, g, kbd!(g.nx(), g.nx() = g.nx(), g.nx()), el, rl) }
    h_23_s016(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); rl.log(128 + 6); lit("B<body id=\"C\">DEF</body>G<embed>"); go!(b, g, frag!(W0(g.nx()), body!(W0(g.nx()), W0(g.nx()), W0(g.nx()), id = W0(g.nx())), W0(g.nx()), embed!()), el, rl) }
    h_23_s017(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); lit("<details B=\"C\">DEF</details>"); go!(b, g, details!((g.nx()) = (g.nx()), (g.nx()), (g.nx()), (g.nx())), el, rl) }
    h_23_s018(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); rl.log(128 + 6); lit("<select B=\"C\" D=\"E\" type=\"F\">G</select>"); go!(b, g, select!(g.nx() = g.nx(), g.nx() = g.nx(), g.nx(), r#type = g.nx()), el, rl) }
    h_23_s019(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); lit("<slot B=\"C\" data-x=\"D\">E</slot>"); go!(b, g, slot!(if true { g.nx() } else { g.e(0) } = if true { g.nx() } else { g.e(0) }, "data-x" = if true { g.nx() } else { g.e(0) }, if true { g.nx() } else { g.e(0) }), el, rl) }
    h_23_s020(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); if false { rl.log(128 + 7); } rl.log(128 + 8); lit("<select id=\"B\"><s C=\"D\">EF</s><br"); if false { lit(" H"); } lit("></select> I"); go!(b, g, classes!(select!(Some(g.nx()) = bool!(false), id = Some(g.nx()), s!(Some(g.nx()), Some(g.nx()), Some(g.nx()) = Some(g.nx())), br!(Some(g.nx()) = bool!(g.tk()))), Some(g.nx())), el, rl) }
    h_23_s021(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); lit("<nav type=\"B\" C=\"D\" E=\"F\"></nav>"); go!(b, g, nav!(r#type = W0(g.nx()), W0(g.nx()) = W0(g.nx()), W0(g.nx()) = W0(g.nx())), el, rl) }
    h_23_s022(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); rl.log(128 + 1); if false { rl.log(128 + 3); } rl.log(128 + 4); rl.log(128 + 5); rl.log(128 + 6); lit("<map B=\"q\""); if false { lit(" D"); } lit(" data-x=\"E\">FG</map>"); go!(b, g, map!(g.nx() = "q", g.nx(), g.nx() = bool!({ g.tk() }), g.nx(), "data-x" = g.nx()), el, rl) }
    h_23_s023(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); rl.log(128 + 6); rl.log(128 + 7); rl.log(128 + 8); rl.log(128 + 9); rl.log(128 + 10); rl.log(128 + 11); lit("<hgroup B=\"C\" data-x=\"D\" E=\"F\">G<p id=\"H\">IJK</p>L</hgroup>"); go!(b, g, hgroup!(idf(g.nx()) = g.nx(), "data-x" = idf(g.nx()), idf(g.nx()), frag!(oc!(a = idf(g.nx()), idf(g.nx()), idf(g.nx()), b = idf(g.nx())), classes!(idf(g.nx()))), g.nx() = g.nx()), el, rl) }
    h_23_s024(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); lit("B C D E"); go!(b, g, classes!(nx(&g), nx(&g), Some(g.nx()), Some(g.nx())), el, rl) }
    h_23_s025(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); rl.log(128 + 1); if false { rl.log(128 + 3); } if false { rl.log(128 + 5); } lit("<time id=\"B\""); if false { lit(" D"); } lit("><strong"); if false { lit(" F"); } lit("></strong></time>"); go!(b, g, time!(id = W0(g.nx()), strong!(W0(g.nx()) = bool!(g.tk())), W0(g.nx()) = bool!(g.tk())), el, rl) }
    h_23_s026(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); rl.log(128 + 1); if true { rl.log(128 + 4); } rl.log(128 + 5); rl.log(128 + 6); rl.log(128 + 7); rl.log(128 + 8); rl.log(128 + 9); lit("<article class=\"B\""); if false { lit(" n2"); } if true { lit(" E"); } lit("><dfn class=\"F\" G=\"H\">I</dfn>J</article>"); go!(b, g, article!(class = if true { g.nx() } else { g.e(0) }, dfn!(if true { g.nx() } else { g.e(0) }, class = if true { g.nx() } else { g.e(0) }, if true { g.nx() } else { g.e(0) } = if true { g.nx() } else { g.e(0) }), n2 = bool!(!!g.tk()), if true { g.nx() } else { g.e(0) } = bool!({ g.tk() }), if true { g.nx() } else { g.e(0) }), el, rl) }
    h_23_s027(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); if false { rl.log(128 + 5); } lit("<var B C=\"D\""); if false { lit(" F"); } lit("></var>"); go!(b, g, var!(Some(g.nx()) = bool!(true), Some(g.nx()) = Some(g.nx()), Some(g.nx()) = bool!(g.tk())), el, rl) }
    h_23_s028(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 6); rl.log(128 + 7); rl.log(128 + 8); rl.log(128 + 9); lit("<ol B=\"C\" D=\"E\""); if true { lit(" n5"); } lit(">GHI</ol> J"); go!(b, g, classes!(ol!((g.nx()) = (g.nx()), (g.nx()), (g.nx()), (g.nx()) = (g.nx()), (g.nx()), n5 = bool!(g.tk())), (g.nx())), el, rl) }
    h_23_s029(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 4); rl.log(128 + 5); rl.log(128 + 6); rl.log(128 + 7); rl.log(128 + 8); rl.log(128 + 9); rl.log(128 + 10); rl.log(128 + 11); rl.log(128 + 12); lit("<output id=\"B\" class=\"C\""); if true { lit(" n3"); } lit(">EF<noscript id=\"G\" id=\"H\" data-x=\"I\">J<area K=\"L\">M</noscript></output>"); go!(b, g, output!(id = (|| g.nx())(), (|| g.nx())(), class = (|| g.nx())(), frag!(frag!({ g.nx() })), noscript!(id = { g.nx() }, (|| g.nx())(), area!((|| g.nx())() = (|| g.nx())()), id = { g.nx() }, "data-x" = { g.nx() }, (|| g.nx())()), n3 = bool!(!!g.tk())), el, rl) }
    h_23_s030(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); if true { rl.log(128 + 2); } rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); rl.log(128 + 6); rl.log(128 + 7); lit("<dl"); if true { lit(" C"); } lit(" D=\"E\">FGH</dl>"); go!(b, g, dl!((g.nx()) = bool!(!!g.tk()), (g.nx()), (|| g.nx())() = (|| g.nx())(), (g.nx()), (g.nx())), el, rl) }
    h_23_s031(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); lit("<rp B=\"C\" D=\"E\"></rp>"); go!(b, g, rp!(if true { g.nx() } else { g.e(0) } = if true { g.nx() } else { g.e(0) }, if true { g.nx() } else { g.e(0) } = if true { g.nx() } else { g.e(0) }), el, rl) }
    h_23_s032(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); el.log(13); el.log(14); el.log(15); el.log(16); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); if false { rl.log(128 + 5); } rl.log(128 + 6); rl.log(128 + 7); if false { rl.log(128 + 9); } rl.log(128 + 10); rl.log(128 + 11); rl.log(128 + 12); rl.log(128 + 13); rl.log(128 + 15); rl.log(128 + 16); lit("<rp B=\"C\">D<noscript"); if false { lit(" F"); } lit(" G=\"H\""); if false { lit(" J"); } lit(">KLM</noscript><figcaption id=\"N\""); if false { lit(" n14"); } lit(" P=\"Q\"></figcaption></rp>"); go!(b, g, classes!(rp!(W0(g.nx()), W0(g.nx()) = W0(g.nx()), noscript!(W0(g.nx()) = bool!(g.tk()), W0(g.nx()), W0(g.nx()), W0(g.nx()) = W0(g.nx()), W0(g.nx()) = bool!({ g.tk() }), W0(g.nx())), figcaption!(id = W0(g.nx()), n14 = bool!({ g.tk() }), W0(g.nx()) = W0(g.nx())))), el, rl) }
    h_23_s033(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); if true { rl.log(128 + 2); } rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); lit("<ruby"); if true { lit(" C"); } lit(">DEF</ruby>"); go!(b, g, ruby!(idf(g.nx()) = bool!(g.tk()), idf(g.nx()), idf(g.nx()), idf(g.nx())), el, rl) }
    h_23_s034(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); rl.log(128 + 1); rl.log(128 + 2); if true { rl.log(128 + 4); } rl.log(128 + 5); rl.log(128 + 6); lit("<s data-x=\"B\" id=\"C\""); if true { lit(" E"); } lit(">FG</s>"); go!(b, g, s!("data-x" = if true { g.nx() } else { g.e(0) }, frag!(), id = if true { g.nx() } else { g.e(0) }, if true { g.nx() } else { g.e(0) }, if true { g.nx() } else { g.e(0) } = bool!(!!g.tk()), if true { g.nx() } else { g.e(0) }), el, rl) }
    h_23_s035(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); el.log(13); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 4); rl.log(128 + 5); rl.log(128 + 6); rl.log(128 + 7); rl.log(128 + 8); rl.log(128 + 9); rl.log(128 + 10); rl.log(128 + 11); rl.log(128 + 12); rl.log(128 + 13); lit("<footer B=\"C\""); if true { lit(" n3"); } lit(">E<article><object F=\"G\"></object><data type=\"H\" I=\"J\">KLM</data>N</article></footer>"); go!(b, g, footer!((|| g.nx())(), (|| g.nx())() = (|| g.nx())(), article!(object!((|| g.nx())() = (|| g.nx())()), data!(r#type = (|| g.nx())(), (|| g.nx())(), (|| g.nx())(), (|| g.nx())() = (|| g.nx())(), (|| g.nx())(), (|| g.nx())() = bool!(false)), (|| g.nx())()), n3 = bool!(g.tk())), el, rl) }
    h_23_s036(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); lit("BCDE"); go!(b, g, frag!((|| g.nx())(), (|| g.nx())(), (|| g.nx())(), (|| g.nx())()), el, rl) }
    h_23_s037(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); if false { rl.log(128 + 7); } rl.log(128 + 8); if true { rl.log(128 + 10); } lit("<strong B=\"C\"><li>DEF</li><small"); if false { lit(" H"); } lit(" I=\"q\""); if true { lit(" K"); } lit("></small>q</strong>"); go!(b, g, strong!(g.nx() = g.nx(), li!(g.nx(), g.nx(), g.nx()), small!(g.nx() = bool!(g.tk()), g.nx() = "q", g.nx() = bool!(g.tk())), g.nx() = bool!(false), "q"), el, rl) }
    h_23_s038(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); if true { rl.log(128 + 6); } rl.log(128 + 7); rl.log(128 + 8); rl.log(128 + 9); lit("<bdi data-x=\"B\" C=\"q\" D=\"E\"><source"); if true { lit(" G"); } lit(" H=\"q\"><dfn I=\"J\"></dfn></bdi>"); go!(b, g, bdi!("data-x" = { let q = g.nx(); q }, classes!(), { let q = g.nx(); q } = "q", source!({ let q = g.nx(); q } = bool!(g.tk()), { let q = g.nx(); q } = "q"), { let q = g.nx(); q } = { let q = g.nx(); q }, dfn!({ let q = g.nx(); q } = { let q = g.nx(); q })), el, rl) }
    h_23_s039(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); rl.log(128 + 6); lit("<dd B=\"C\" D=\"E\">FG</dd>"); go!(b, g, dd!({ let q = g.nx(); q }, g.nx() = g.nx(), { let q = g.nx(); q } = g.nx(), { let q = g.nx(); q }), el, rl) }
    h_23_s040(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); lit("<bdo B>C</bdo>DE"); go!(b, g, frag!(bdo!((|| g.nx())(), (|| g.nx())() = bool!(true)), (|| g.nx())(), (|| g.nx())()), el, rl) }
    h_23_s041(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(128 + 2); rl.log(128 + 4); lit("<rtc"); if true { lit(" n1"); } lit(" C"); if true { lit(" n3"); } lit(">E</rtc>"); go!(b, g, rtc!((|| g.nx())(), n1 = bool!(g.tk()), (|| g.nx())() = bool!(true), n3 = bool!(!!g.tk())), el, rl) }
    h_23_s042(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); rl.log(128 + 1); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); lit("<p type=\"B\""); if false { lit(" n2"); } lit(">DEF</p>"); go!(b, g, p!(r#type = (|| g.nx())(), g.nx(), n2 = bool!(!!g.tk()), (|| g.nx())(), g.nx()), el, rl) }
    h_23_s043(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); if true { rl.log(128 + 2); } if true { rl.log(128 + 4); } rl.log(128 + 5); rl.log(128 + 6); rl.log(128 + 7); rl.log(128 + 8); lit("<figcaption"); if true { lit(" C"); } if true { lit(" E"); } lit(">FGHI</figcaption>"); go!(b, g, figcaption!({ let q = g.nx(); q } = bool!(!!g.tk()), frag!({ let q = g.nx(); q }, { let q = g.nx(); q }, { let q = g.nx(); q }), { let q = g.nx(); q } = bool!(!!g.tk()), { let q = g.nx(); q }, { let q = g.nx(); q } = bool!(false)), el, rl) }
    h_23_s044(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(128 + 1); if false { rl.log(128 + 3); } rl.log(128 + 4); lit("B<ul"); if false { lit(" D"); } lit(">q</ul>E"); go!(b, g, frag!(frag!(), W0(g.nx()), ul!(W0(g.nx()) = bool!({ g.tk() }), "q"), W0(g.nx())), el, rl) }
    h_23_s045(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); lit("<dd B=\"C\" D=\"E\"></dd>"); go!(b, g, dd!({ let q = g.nx(); q } = { let q = g.nx(); q }, { let q = g.nx(); q } = { let q = g.nx(); q }), el, rl) }
    h_23_s046(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); if true { rl.log(128 + 2); } rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); rl.log(128 + 6); if true { rl.log(128 + 8); } rl.log(128 + 9); rl.log(128 + 10); lit("<tfoot"); if true { lit(" C"); } lit("><template>DEF</template><track id=\"G\""); if true { lit(" I"); } lit("><p id=\"J\">K</p></tfoot>"); go!(b, g, tfoot!(template!(nx(&g), nx(&g), nx(&g)), track!(id = nx(&g), nx(&g) = bool!(!!g.tk())), oc!(b = nx(&g), a = nx(&g)), nx(&g) = bool!(!!g.tk())), el, rl) }
    h_23_s047(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); el.log(13); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); rl.log(128 + 6); rl.log(128 + 7); rl.log(128 + 8); rl.log(128 + 9); rl.log(128 + 10); rl.log(128 + 11); rl.log(128 + 12); rl.log(128 + 13); lit("<script><kbd>B C D E</kbd>q<kbd>FGH</kbd> <template type=\"q\" I=\"J\" K=\"L\">MN</template></script>"); go!(b, g, script!(kbd!({ let q = g.nx(); q } = bool!(false), classes!({ let q = g.nx(); q }, { let q = g.nx(); q }, { let q = g.nx(); q }, { let q = g.nx(); q })), "q", classes!(kbd!({ let q = g.nx(); q }, { let q = g.nx(); q }, { let q = g.nx(); q }), template!(r#type = "q", { let q = g.nx(); q }, { let q = g.nx(); q } = { let q = g.nx(); q }, { let q = g.nx(); q }, { let q = g.nx(); q } = { let q = g.nx(); q }))), el, rl) }
    h_23_s048(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); lit("B C D E"); go!(b, g, classes!(if true { g.nx() } else { g.e(0) }, if true { g.nx() } else { g.e(0) }, if true { g.nx() } else { g.e(0) }, if true { g.nx() } else { g.e(0) }), el, rl) }
    h_23_s049(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); lit("<fieldset>BCDE</fieldset>"); go!(b, g, fieldset!(frag!(g.nx(), Some(g.nx()), g.nx(), g.nx())), el, rl) }
    h_23_s050(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); lit("<time B C type=\"q\"><canvas><figcaption>DE</figcaption><output></output><link></canvas></time>"); go!(b, g, time!(nx(&g) = bool!(true), g.nx() = bool!(true), canvas!(figcaption!(g.nx(), g.nx()), output!(), link!()), r#type = "q"), el, rl) }
    h_23_s051(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); rl.log(128 + 2); rl.log(128 + 3); if false { rl.log(128 + 5); } lit("<rp"); if true { lit(" n1"); } lit(" C=\"D\""); if false { lit(" F"); } lit("></rp>"); go!(b, g, rp!(n1 = bool!(g.tk()), Some(g.nx()) = nx(&g), nx(&g) = bool!(g.tk())), el, rl) }
    h_23_s052(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); lit("<img><img B><p id=\"C\">DEF</p><section></section>"); go!(b, g, frag!(img!(), img!(Some(g.nx()) = bool!(true)), oc!(Some(g.nx()), Some(g.nx()), b = Some(g.nx()), a = Some(g.nx())), section!()), el, rl) }
    h_23_s053(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); rl.log(128 + 6); rl.log(128 + 7); rl.log(128 + 8); rl.log(128 + 9); rl.log(128 + 10); lit("<summary id=\"B\" C=\"D\"><p id=\"E\">FG</p>HIJK</summary>"); go!(b, g, summary!(id = if true { g.nx() } else { g.e(0) }, if true { g.nx() } else { g.e(0) } = if true { g.nx() } else { g.e(0) }, oc!(b = if true { g.nx() } else { g.e(0) }, if true { g.nx() } else { g.e(0) }, a = if true { g.nx() } else { g.e(0) }), if true { g.nx() } else { g.e(0) }, frag!(if true { g.nx() } else { g.e(0) }, if true { g.nx() } else { g.e(0) }, if true { g.nx() } else { g.e(0) })), el, rl) }
    h_23_s054(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); rl.log(128 + 1); rl.log(128 + 2); rl.log(128 + 3); if false { rl.log(128 + 5); } rl.log(128 + 6); lit("<legend B=\"C\" data-x=\"D\""); if false { lit(" F"); } lit(">G</legend>"); go!(b, g, legend!([g.nx()].into_iter().next(), if true { g.nx() } else { g.e(0) } = [g.nx()].into_iter().next(), "data-x" = if true { g.nx() } else { g.e(0) }, if true { g.nx() } else { g.e(0) } = bool!({ g.tk() })), el, rl) }
    h_23_s055(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); if false { rl.log(128 + 3); } rl.log(128 + 4); if false { rl.log(128 + 7); } rl.log(128 + 8); lit("<code"); if true { lit(" n1"); } if false { lit(" D"); } lit(" type=\"E\"><small"); if true { lit(" n5"); } if false { lit(" H"); } lit(">I</small></code>"); go!(b, g, code!(n1 = bool!(!!g.tk()), small!(n5 = bool!(g.tk()), gn!(g) = bool!({ g.tk() }), gn!(g)), gn!(g) = bool!(g.tk()), r#type = gn!(g)), el, rl) }
    h_23_s056(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); rl.log(128 + 1); rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); rl.log(128 + 6); rl.log(128 + 7); rl.log(128 + 8); rl.log(128 + 9); rl.log(128 + 10); rl.log(128 + 11); lit("<sup B=\"q\""); if false { lit(" n2"); } lit(" D=\"q\"></sup><ins E>FG</ins>HIJq<p id=\"K\">L</p>"); go!(b, g, frag!(sup!(idf(g.nx()) = "q", n2 = bool!(!!g.tk()), idf(g.nx()) = "q"), frag!(ins!(idf(g.nx()), idf(g.nx()), idf(g.nx()) = bool!(true)), idf(g.nx()), idf(g.nx()), idf(g.nx())), "q", oc!(b = idf(g.nx()), a = idf(g.nx()))), el, rl) }
    h_23_s057(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); if true { rl.log(128 + 2); } rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); lit("<footer"); if true { lit(" C"); } lit(">DEF</footer>"); go!(b, g, footer!((|| g.nx())(), (|| g.nx())(), (|| g.nx())(), W0(g.nx()) = bool!(!!g.tk())), el, rl) }
    h_23_s058(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); if false { rl.log(128 + 3); } rl.log(128 + 5); rl.log(128 + 6); lit("<del"); if true { lit(" n1"); } if false { lit(" D"); } lit("><audio data-x=\"q\""); if false { lit(" n4"); } lit(">FG</audio></del>"); go!(b, g, del!(audio!("data-x" = "q", idf(g.nx()), n4 = bool!(g.tk()), idf(g.nx())), n1 = bool!(g.tk()), [g.nx()].into_iter().next() = bool!(!!g.tk())), el, rl) }
    h_23_s059(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); if true { rl.log(128 + 2); } rl.log(128 + 3); rl.log(128 + 4); rl.log(128 + 5); lit("<ruby"); if true { lit(" C"); } lit(" D=\"E\">F</ruby>"); go!(b, g, ruby!(idf(g.nx()) = bool!(g.tk()), idf(g.nx()), gn!(g) = idf(g.nx())), el, rl) }
    h_23_r000(b) { let g = G::new(); let el = G::new(); el.log(1); el.log(2); el.log(129); el.log(130); lit("BC"); let s = render!(ge!(g, 1), (g.e(2), 1).0); g.same(&el, 20); end(b, raw!(s)) }
    h_23_r001(b) { let g = G::new(); let el = G::new(); let l = bool_(); el.log(1); if l { el.log(2); } else { el.log(3); } el.log(4); if l { el.log(130); } else { el.log(131); } el.log(132); lit("-"); if l { lit("C"); } else { lit("D"); } lit("E"); let s = render!("-", frag_match!(if if g.s(1, l) { true } else { false } { Some(g.e(2)) } else { unsafe { idu(g.e(3)) } }), match 1 { _ => g.e(4) }); g.same(&el, 20); end(b, raw!(s)) }
    h_23_r002(b) { let g = G::new(); let el = G::new(); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); el.log(13); el.log(130); el.log(131); el.log(132); el.log(133); el.log(134); el.log(135); el.log(136); el.log(137); el.log(138); el.log(139); el.log(140); el.log(141); lit("<q data-x=\"=\" id=\"C\">\u{feff}<p id=\"D\">EFG</p>HIJ</q><tbody K=\"L\"></tbody>MN"); let s = render!(q!((g.e(1)) = bool!(false), "\u{feff}", "data-x" = "=", oc!(a = idf(g.e(3)), { g.e(5) }, b = W0(g.e(4)), g.e(6)), id = ev(&g, 2), frag!(Some(g.e(7)), loop { break g.e(8) }, unsafe { idu(g.e(9)) })), tbody!(ge!(g, 10) = (|| g.e(11))()), g.e(12), match 1 { _ => g.e(13) }); g.same(&el, 20); end(b, raw!(s)) }
    h_23_r003(b) { let g = G::new(); let el = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); if k { el.log(130); } el.log(131); lit("<progress"); if k { lit(" C"); } lit("></progress>D"); let s = render!(progress!(match 1 { _ => g.e(2) } = bool!((g.s(1, k)))), loop { break g.e(3) }); g.same(&el, 20); end(b, raw!(s)) }
    h_23_r004(b) { let g = G::new(); let el = G::new(); el.log(1); el.log(2); el.log(3); el.log(129); el.log(130); el.log(131); lit("BCD"); let s = render!(g.e(1), (g.e(2), 1).0, idf(g.e(3))); g.same(&el, 20); end(b, raw!(s)) }
    h_23_r005(b) { let g = G::new(); let el = G::new(); let k = bool_(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(129); el.log(131); el.log(132); if l { el.log(134); } el.log(135); el.log(136); el.log(137); el.log(138); el.log(139); lit("<template B"); if k { lit(" n2"); } lit(" type=\"0\"></template>DE <area"); if l { lit(" G"); } lit("> HIJKL"); let s = render!(template!(W0(g.e(1)) = bool!(true), n2 = bool!((g.s(2, k))), r#type = "0"), [g.e(3)].into_iter().next(), classes!(g.e(4), area!(g.e(6) = bool!(!!g.s(5, l))), frag!([g.e(7)].into_iter().next(), g.e(8), [g.e(9)].into_iter().next(), [g.e(10)].into_iter().next())), g.e(11)); g.same(&el, 20); end(b, raw!(s)) }
    h_23_r006(b) { let g = G::new(); let el = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(129); el.log(130); el.log(131); el.log(132); el.log(133); lit("<p id=\"B\">CDE</p>F"); let s = render!(oc!(a = if true { g.e(1) } else { g.e(0) }, { g.e(3) }, b = P0 { a: 1, b: g.e(2) }.b, (|| g.e(4))()), { let q = g.e(5); q }); g.same(&el, 20); end(b, raw!(s)) }
    h_23_r007(b) { let g = G::new(); let el = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); el.log(129); el.log(130); el.log(131); el.log(132); el.log(133); el.log(134); el.log(135); el.log(136); el.log(137); el.log(138); el.log(139); el.log(140); lit("<pre>BC</pre> D E F G <p id=\"H\">IJK</p> L007M"); let s = render!(classes!(pre!(loop { break g.e(1) }, g.e(2)), classes!(if true { g.e(3) } else { g.e(0) }, (g.e(4)), ev(&g, 5), [g.e(6)].into_iter().next()), oc!(unsafe { idu(g.e(9)) }, b = (|| g.e(8))(), a = ge!(g, 7), W0(g.e(10))), g.e(11)), frag!("007"), P0 { a: 1, b: g.e(12) }.b); g.same(&el, 20); end(b, raw!(s)) }
    h_23_r008(b) { let g = G::new(); let el = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); el.log(13); el.log(129); el.log(130); el.log(131); el.log(132); el.log(133); if k { el.log(135); } el.log(136); el.log(137); el.log(138); el.log(139); el.log(140); lit("<summary type=\"B\">C D EF</summary><h5"); if k { lit(" H"); } lit(" I=\"J\"></h5>K<template type=\"e\u{301}\" type=\"L\">M<input"); if k { lit(" n13"); } lit("></template>"); let s = render!(summary!(classes!((|| g.e(2))(), g.e(3), g.e(4)), r#type = unsafe { idu(g.e(1)) }, (g.e(5), 1).0), h5!((g.e(7), 1).0 = bool!((g.s(6, k))), { g.e(8) } = (g.e(9))), P0 { a: 1, b: g.e(10) }.b, template!(frag!({ let q = g.e(12); q }), input!(n13 = bool!(idb(g.s(13, k)))), r#type = "e\u{301}", r#type = ge!(g, 11))); g.same(&el, 20); end(b, raw!(s)) }
    h_23_r009(b) { let g = G::new(); let el = G::new(); el.log(1); el.log(2); el.log(129); el.log(130); lit("BC"); let s = render!(ge!(g, 1), Some(g.e(2))); g.same(&el, 20); end(b, raw!(s)) }
    h_23_r010(b) { let g = G::new(); let el = G::new(); el.log(1); el.log(2); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); el.log(129); el.log(130); el.log(132); el.log(133); el.log(134); el.log(135); el.log(136); el.log(137); el.log(138); el.log(139); el.log(140); lit("<wbr><pre B=\"C\" E=\"{}\"><p id=\"F\">GH</p><pre type=\"I\" J=\"&#39;\" data-x=\"K\">LM</pre>a\r\nb</pre>\0"); let s = render!(wbr!(), pre!(oc!(a = { g.e(5) }, b = (|| g.e(6))(), [g.e(7)].into_iter().next()), loop { break g.e(1) } = g.e(2), pre!(idf(g.e(11)), r#type = ge!(g, 8), match 1 { _ => g.e(12) }, ge!(g, 9) = "'", "data-x" = (g.e(10), 1).0), Some(g.e(3)) = bool!(false), Some(g.e(4)) = "{}", "a\r\nb"), "\0"); g.same(&el, 20); end(b, raw!(s)) }
    h_23_r011(b) { let g = G::new(); let el = G::new(); let k = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); el.log(13); el.log(14); el.log(15); el.log(16); el.log(17); el.log(18); el.log(19); el.log(20); el.log(21); el.log(22); el.log(23); if k { el.log(24); } else { el.log(25); } el.log(26); el.log(27); el.log(28); el.log(29); el.log(30); el.log(31); el.log(32); if k { el.log(33); } else { el.log(34); } el.log(130); el.log(131); el.log(132); el.log(133); if k { el.log(136); } el.log(137); el.log(138); el.log(139); el.log(140); el.log(141); el.log(142); el.log(143); el.log(144); el.log(145); el.log(146); el.log(147); el.log(148); el.log(149); el.log(150); if k { el.log(152); } else { el.log(153); } el.log(155); el.log(156); el.log(157); el.log(158); el.log(159); if k { el.log(161); } else { el.log(162); } lit("<summary"); if k { lit(" n1"); } lit(" id=\"C\">DEF</summary><option"); if k { lit(" n6"); } if k { lit(" I"); } lit(">JKL</option><h4 M=\"it&#39;s\" class=\"N\" O=\"P\">QRS</h4><p id=\"T\">UVW</p>"); if k { lit("Y"); } else { lit("Z"); } lit("<pre"); if k { lit(" n26"); } lit(" id=\"B\" C=\"D\"><base E=\"世界\">F"); if k { lit("H"); } else { lit("I"); } lit("</pre>"); let s = render!(frag!(summary!(n1 = bool!(g.s(1, k)), id = loop { break g.e(2) }, (g.e(3), 1).0, (g.e(4), 1).0, g.e(5)), option!(n6 = bool!(!!g.s(6, k)), ev(&g, 9), [g.e(10)].into_iter().next(), unsafe { idu(g.e(8)) } = bool!(g.s(7, k) && true), ge!(g, 11)), h4!(loop { break g.e(12) } = "it's", { let q = g.e(16); q }, class = ev(&g, 13), ge!(g, 17), match 1 { _ => g.e(14) } = { g.e(15) }, P0 { a: 1, b: g.e(18) }.b)), oc!(idf(g.e(21)), a = ge!(g, 19), { let q = g.e(22); q }, b = (g.e(20), 1).0), frag_match!(if g.s(23, k) { W0(g.e(24)) } else { (g.e(25)) }), pre!(n26 = bool!(g.s(26, k)), base!([g.e(30)].into_iter().next() = "世界"), id = (|| g.e(27))(), g.e(31), unsafe { idu(g.e(28)) } = if true { g.e(29) } else { g.e(0) }, frag_match!(if g.s(32, k) && true { (|| g.e(33))() } else { loop { break g.e(34) } }))); g.same(&el, 20); end(b, raw!(s)) }
    h_23_r012(b) { let g = G::new(); let el = G::new(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); el.log(129); el.log(130); el.log(131); el.log(132); el.log(133); el.log(134); el.log(135); el.log(136); el.log(137); el.log(138); if l { el.log(140); } lit("B<q id=\"C\" D>EFG</q> H I <source J=\"K\""); if l { lit(" M"); } lit(">"); let s = render!(loop { break g.e(1) }, classes!(q!(idf(g.e(4)), g.e(5), id = P0 { a: 1, b: g.e(2) }.b, match 1 { _ => g.e(6) }, if true { g.e(3) } else { g.e(0) } = bool!(true)), classes!(if true { g.e(7) } else { g.e(0) }, loop { break g.e(8) }), source!((g.e(9)) = idf(g.e(10)), ge!(g, 12) = bool!((g.s(11, l)))))); g.same(&el, 20); end(b, raw!(s)) }
    h_23_r013(b) { let g = G::new(); let el = G::new(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(129); el.log(130); el.log(131); el.log(132); el.log(133); lit("<dialog>B CD</dialog>EF"); let s = render!(dialog!(classes!({ let q = g.e(1); q }, ge!(g, 2)), match 1 { _ => g.e(3) }), loop { break g.e(4) }, { let q = g.e(5); q }); g.same(&el, 20); end(b, raw!(s)) }
    h_23_r014(b) { let g = G::new(); let el = G::new(); let k = bool_(); let l = bool_(); el.log(1); el.log(2); el.log(3); el.log(4); el.log(5); el.log(6); el.log(7); el.log(8); el.log(9); el.log(10); el.log(11); el.log(12); el.log(13); el.log(14); el.log(15); el.log(16); el.log(131); el.log(132); el.log(134); el.log(135); el.log(137); el.log(138); el.log(139); el.log(140); el.log(141); el.log(142); el.log(143); el.log(144); lit("<textarea"); if l { lit(" n1"); } lit("><abbr"); if k { lit(" n2"); } lit(" D=\"E\""); if l { lit(" n5"); } lit(">GH</abbr><br><progress"); if k { lit(" n8"); } lit(" id=\"J\" data-x=\"K\">LMN</progress></textarea>OPQ"); let s = render!(textarea!(abbr!(n2 = bool!(!!g.s(2, k)), g.e(6), (g.e(3), 1).0 = loop { break g.e(4) }, { g.e(7) }, n5 = bool!(idb(g.s(5, l)))), n1 = bool!(!!g.s(1, l)), br!(), progress!(loop { break g.e(11) }, P0 { a: 1, b: g.e(12) }.b, n8 = bool!(!!g.s(8, k)), id = (|| g.e(9))(), W0(g.e(13)), "data-x" = g.e(10))), match 1 { _ => g.e(14) }, if true { g.e(15) } else { g.e(0) }, (g.e(16))); g.same(&el, 20); end(b, raw!(s)) }
    h_23_r015(b) { let g = G::new(); let el = G::new(); el.log(1); el.log(2); el.log(129); el.log(130); lit("BC"); let s = render!(W0(g.e(1)), (g.e(2), 1).0); g.same(&el, 20); end(b, raw!(s)) }
}
