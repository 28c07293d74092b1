//! when, in which order and how often expressions are evaluated and values rendered
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{string::String, format, vec};
use core::cell::Cell;
/// what happened: k for an expression evaluated, 100 + k for its value rendered
pub struct G { l: [Cell<u8>; 64], n: Cell<usize> }
impl G {
    fn new() -> G { G { l: [const { Cell::new(0) }; 64], n: Cell::new(0) } }
    fn log(&self, k: u8) { self.l[self.n.get()].set(k); self.n.set(self.n.get() + 1); }
    /// a value
    fn e(&self, k: u8) -> V<'_> { self.log(k); V(self, k) }
    fn b(&self, k: u8, v: bool) -> bool { self.log(k); v }
    fn s<T>(&self, k: u8, v: T) -> T { self.log(k); v }
    fn is(&self, l: &[u8], code: u32) { check(self.n.get() == l.len(), code); for i in 0..l.len().min(self.n.get()) { check(self.l[i].get() == l[i], code + 1) } }
}
pub struct V<'a>(&'a G, u8);
impl<'a> Render for V<'a> { fn render(self, b: &mut Buffer) { self.0.log(100 + self.1); lit_ok(b, self.1) } }
fn lit_ok(b: &mut Buffer, k: u8) { b.push((b'A' + k) as char) }
impl<'a> core::fmt::Display for V<'a> { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { self.0.log(200 + self.1); f.write_str("D") } }
/// construct; nothing may have been rendered or written; then render
macro_rules! go { ($b:ident, $g:ident, $n:expr, $ev:expr, $rd:expr) => {{
    let mut b = $b; let l = b.len(); let n = $n;
    $g.is(&$ev, 20); check(b.len() == l, 24);
    $g.n.set(0); out(&b);
    n.render(&mut b);
    $g.is(&$rd, 22); check_str(b.as_str(), 1);
}} }
case! {
    h_23_children(b) { let g = G::new(); w!["<p>BCD</p>"]; go!(b, g, p!(g.e(1), g.e(2), g.e(3)), [1, 2, 3], [101, 102, 103]) }
    h_23_attrs(b) { let g = G::new(); w!["<p a=\"B\" b=\"C\" c=\"D\"></p>"]; go!(b, g, p!(a = g.e(1), b = g.e(2), c = g.e(3)), [1, 2, 3], [101, 102, 103]) }
    h_23_hoist(b) { let g = G::new(); w!["<p a=\"C\" b=\"E\">BDF</p>"]; go!(b, g, p!(g.e(1), a = g.e(2), g.e(3), b = g.e(4), g.e(5)), [2, 4, 1, 3, 5], [102, 104, 101, 103, 105]) }
    h_23_names(b) { let g = G::new(); w!["<p B=\"C\" D=\"E\">F</p>"]; go!(b, g, p!(g.e(5), g.e(1) = g.e(2), g.e(3) = g.e(4)), [1, 2, 3, 4, 5], [101, 102, 103, 104, 105]) }
    h_23_bools(b) { let g = G::new(); let k = bool_(); let l = bool_(); w!["<p"]; if k { lit(" a") } if l { lit(" b") } w![" c=\"E\">F</p>"];
        go!(b, g, p!(a = bool!(g.b(2, k)), g.e(5), b = bool!(g.b(3, l)), c = g.e(4)), [2, 3, 4, 5], [104, 105]) }
    h_23_bool_name(b) { let g = G::new(); let k = bool_(); w!["<p"]; if k { lit(" C") } w![" z=\"E\">D</p>"]; if k { go!(b, g, p!(g.e(3), g.e(2) = bool!(g.b(1, k)), z = g.e(4)), [1, 2, 4, 3], [102, 104, 103]) } else { go!(b, g, p!(g.e(3), g.e(2) = bool!(g.b(1, k)), z = g.e(4)), [1, 2, 4, 3], [104, 103]) } }
    h_23_bool_true_name(b) { let g = G::new(); w!["<p B>C</p>"]; go!(b, g, p!(g.e(2), g.e(1) = bool!(true)), [1, 2], [101, 102]) }
    h_23_nested(b) { let g = G::new(); w!["<p a=\"B\">C<b c=\"E\">D<i>F</i></b>G</p>"]; go!(b, g, p!(g.e(2), b!(g.e(3), i!(g.e(5)), c = g.e(4)), g.e(6), a = g.e(1)), [1, 2, 4, 3, 5, 6], [101, 102, 104, 103, 105, 106]) }
    h_23_nested_var(b) { let g = G::new(); w!["<p>B<b>C</b>D</p>"]; let i = b!(g.e(2)); go!(b, g, p!(g.e(1), i, g.e(3)), [2, 1, 3], [101, 102, 103]) }
    h_23_frag(b) { let g = G::new(); w!["BCDE"]; go!(b, g, frag!(g.e(1), frag!(g.e(2), frag!(), g.e(3)), g.e(4)), [1, 2, 3, 4], [101, 102, 103, 104]) }
    h_23_classes(b) { let g = G::new(); w!["B C D E"]; go!(b, g, classes!(g.e(1), classes!(g.e(2), g.e(3)), g.e(4)), [1, 2, 3, 4], [101, 102, 103, 104]) }
    h_23_attr_classes(b) { let g = G::new(); w!["<p class=\"B C\" id=\"D\">E</p>"]; go!(b, g, p!(g.e(4), class = classes!(g.e(1), g.e(2)), id = g.e(3)), [1, 2, 3, 4], [101, 102, 103, 104]) }
    h_23_void(b) { let g = G::new(); let k = bool_(); w!["<p><input a=\"B\""]; if k { lit(" on") } w![" b=\"D\">E</p>"]; go!(b, g, p!(input!(a = g.e(1), on = bool!(g.b(2, k)), b = g.e(3)), g.e(4)), [1, 2, 3, 4], [101, 103, 104]) }
    h_23_opt(b) { let g = G::new(); let k = bool_(); w!["<p>"]; if k { lit("B") } w!["C</p>"]; if k { go!(b, g, p!(Some(g.e(1)), g.e(2)), [1, 2], [101, 102]) } else { go!(b, g, p!(Some(g.e(1)).filter(|_| k), g.e(2)), [1, 2], [102]) } }
    h_23_if(b) { let g = G::new(); let k = bool_(); w!["<p>"]; lit(if k { "C" } else { "D" }); w!["</p>"]; if k { go!(b, g, p!(if g.b(1, k) { g.e(2) } else { g.e(3) }), [1, 2], [102]) } else { go!(b, g, p!(if g.b(1, k) { g.e(2) } else { g.e(3) }), [1, 3], [103]) } }
    h_23_frag_match(b) { let g = G::new(); let n = choose(3); w!["<p>B"]; lit(["C", "D", "E"][n]); w!["F</p>"]; let k = [2u8, 3, 4][n]; go!(b, g, p!(g.e(1), frag_match!(match g.s(9, n) { 0 => g.e(2), 1 => g.e(3), _ => g.e(4) }), g.e(5)), [1, 9, k, 5], [101, 100 + k, 105]) }
    h_23_frag_match_if(b) { let g = G::new(); let k = bool_(); let l = bool_(); let c = if k { 3 } else if l { 4 } else { 5 }; lit(["D", "E", "F"][c - 3]); let c = c as u8;
        if k { go!(b, g, frag_match!(if g.b(1, k) { g.e(3) } else if g.b(2, l) { g.e(4) } else { g.e(5) }), [1, c], [100 + c]) } else { go!(b, g, frag_match!(if g.b(1, k) { g.e(3) } else if g.b(2, l) { g.e(4) } else { g.e(5) }), [1, 2, c], [100 + c]) } }
    h_23_iter(b) { let g = G::new(); w!["<p>A.B.CE</p>"]; let r = &g; go!(b, g, p!(iter!(".", r.s(9, 0..3).map(move |i| r.e(i))), g.e(4)), [9, 4], [0, 100, 1, 101, 2, 102, 104]) }
    h_23_iter_plain(b) { let g = G::new(); w!["ABCD"]; let r = &g; go!(b, g, iter!((0..4).map(move |i| r.e(i))), [], [0, 100, 1, 101, 2, 102, 3, 103]) }
    h_23_display(b) { let g = G::new(); w!["<p>DDB</p>"]; let v = V(&g, 3); go!(b, g, p!(format_args!("{}{}", v, v), g.e(1)), [1], [203, 203, 101]) }
    h_23_disp(b) { let g = G::new(); w!["<p>DB</p>"]; go!(b, g, p!(disp!(g.e(3)), g.e(1)), [3, 1], [203, 101]) }
    h_23_component(b) { let g = G::new(); w!["<p>BCD</p>"]; go!(b, g, comp!(a = g.e(1), b = g.e(2), c = g.e(3)), [1, 2, 3], [101, 102, 103]) }
    h_23_component_any_order(b) { let g = G::new(); w!["<p>BCD</p>"]; match choose(3) { 0 => go!(b, g, comp!(c = g.e(3), b = g.e(2), a = g.e(1)), [1, 2, 3], [101, 102, 103]), 1 => go!(b, g, comp!(b = g.e(2), c = g.e(3), a = g.e(1)), [1, 2, 3], [101, 102, 103]), _ => go!(b, g, comp!(c = g.e(3), a = g.e(1), b = g.e(2)), [1, 2, 3], [101, 102, 103]) } }
    h_23_component_rest(b) { let g = G::new(); w!["<p i=\"B\">CDE</p>"]; go!(b, g, rest!(g.e(2), g.e(3), a = g.e(1), g.e(4)), [1, 2, 3, 4], [101, 102, 103, 104]) }
    h_23_component_in(b) { let g = G::new(); w!["<div>B<p>CDE</p>F</div>"]; go!(b, g, div!(g.e(1), comp!(a = g.e(2), b = g.e(3), c = g.e(4)), g.e(5)), [1, 2, 3, 4, 5], [101, 102, 103, 104, 105]) }
    h_23_not_rendered(b) { let g = G::new(); { let n = div!(g.e(1), a = g.e(2), p!(g.e(3))); g.is(&[2, 1, 3], 20); drop(n); } g.is(&[2, 1, 3], 20); end(b, ()) }
    h_23_eager_value(b) { let mut v = u8_(); let w = v; lit("<p>"); lit_dec(w as u32); lit("</p>"); let n = p!(v); v = v.wrapping_add(1); end(b, n); }
    h_23_eager_move(b) { let x = t(1); let mut s = x; w!["<p a=\"", [x], "\">", [x], "</p>"]; let n = p!(s, a = s); s = "other"; end(b, n) }
    h_23_mutation(b) { w!["<p a=\"1\" b=\"2\">3<b>4</b>5</p>"]; let mut n = 0; let mut f = || { n += 1; n }; let e = p!(a = f(), b = f(), f(), b!(f()), f()); end(b, e) }
    h_23_mutation_hoisted(b) { w!["<p a=\"1\" b=\"2\">3<b k=\"4\">5</b>6</p>"]; let mut n = 0; let mut f = || { n += 1; n }; let e = p!(f(), a = f(), b!(f(), k = f()), b = f(), f()); end(b, e) }
    h_23_render_many(b) { let g = G::new(); let s = render!(g.e(1), g.e(2), g.e(3)); g.is(&[1, 2, 3, 101, 102, 103], 20); w!["BCD"]; end(b, raw!(s)) }
    h_23_render_once(b) { let g = G::new(); let s = render!(g.e(1)); g.is(&[1, 101], 20); w!["B"]; end(b, raw!(s)) }
    h_23_return(b) { let k = bool_(); fn f(k: bool, g: &G) -> Option<String> { let n = p!(g.e(1), if k { return None } else { "x" }, g.e(2)); Some(render!(n)) } let g = G::new(); let r = f(k, &g); check(r.is_none() == k, 26); if k { g.is(&[1], 20) } else { g.is(&[1, 2, 101, 102], 20); lit("<p>BxC</p>") } end(b, r.map(RenderRaw)) }
    h_23_lits_between(b) { let g = G::new(); w!["<p a=\"1\" b=\"B\" c=\"x\">", "tC", "2<br>D</p>"]; go!(b, g, p!(a = 1, "t", b = g.e(1), c = "x", g.e(2), 2, br!(), g.e(3)), [1, 2, 3], [101, 102, 103]) }
    h_23_many(b) { let g = G::new(); w!["<p>BCDEFGHIJKLM</p>"]; go!(b, g, p!(g.e(1), g.e(2), g.e(3), g.e(4), g.e(5), g.e(6), g.e(7), g.e(8), g.e(9), g.e(10), g.e(11), g.e(12)), [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], [101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112]) }
    h_23_deep(b) { let g = G::new(); w!["<a k=\"B\"><b k=\"C\"><i k=\"D\">E</i>F</b>G</a>"]; go!(b, g, a!(b!(i!(g.e(4), k = g.e(3)), g.e(5), k = g.e(2)), g.e(6), k = g.e(1)), [1, 2, 3, 4, 5, 6], [101, 102, 103, 104, 105, 106]) }
    h_23_block(b) { let g = G::new(); w!["<p>CE</p>"]; go!(b, g, p!({ g.s(1, ()); g.e(2) }, { let v = g.e(4); g.s(3, ()); v }), [1, 2, 4, 3], [102, 104]) }
    h_23_delim_order(b) { let g = G::new(); let d = "/"; w!["A/B"]; let r = &g; go!(b, g, iter!(r.s(8, d), r.s(9, 0..2).map(move |i| r.e(i))), [9, 8], [0, 100, 1, 101]) }
    h_23_match_effects(b) { let g = G::new(); let n = choose(4); match n { 0 => w!["<p>B</p>"], _ => w!["<p></p>"] } let k: &[u8] = [&[9, 1][..], &[9, 2, 3], &[9, 4], &[9, 5]][n]; let r: &[u8] = if n == 0 { &[101] } else { &[] };
        go!(b, g, p!(frag_match!(match g.s(9, n) { 0 => g.e(1), 1 => { g.s(2, ()); g.s(3, ()); } 2 => { let _v = g.s(4, 1); } _ => g.s(5, ()) })), *k, *r) }
    h_23_if_effects(b) { let g = G::new(); let n = choose(4); match n { 2 => w!["C"], _ => {} } let k: &[u8] = [&[1, 2][..], &[1, 3, 4, 5], &[1, 3, 6, 7], &[1, 3, 6, 8, 9]][n]; let r: &[u8] = if n == 2 { &[102] } else { &[] };
        go!(b, g, frag_match!(if g.b(1, n == 0) { g.s(2, ()); } else if g.b(3, n == 1) { g.s(4, ()); let _v = g.s(5, 2); } else if g.b(6, n == 2) { let v = g.s(7, V(&g, 2)); v } else { g.s(8, ()); { g.s(9, ()); } }), *k, *r) }
    h_23_exit(b) { let g = G::new(); let k = choose(6); let o = |i: u8, n: usize| g.s(i, if k == n { None } else { Some(V(&g, i)) });
        let r = (|| Some(p!(o(3, 0)?, a = o(1, 1)?, b!(o(4, 2)?, g.e(5)), b = o(2, 3)?, frag!(o(6, 4)?))))(); let w: &[u8] = [&[1, 2, 3][..], &[1], &[1, 2, 3, 4], &[1, 2], &[1, 2, 3, 4, 5, 6], &[1, 2, 3, 4, 5, 6]][k]; g.is(w, 20); check(r.is_some() == (k == 5), 25);
        if k == 5 { w!["<p a=\"B\" b=\"C\">D<b>EF</b>G</p>"] } g.n.set(0); end(b, r); g.is(if k == 5 { &[101, 102, 103, 104, 105, 106] } else { &[] }, 22) }
    h_23_exit_loop(b) { let g = G::new(); let k = u8_(); assume(k < 5); for i in 0..4u8 { let n = div!(g.e(i), { if i == k { break } g.e(10 + i) }); drop(n); } let mut w = [0u8; 8]; let mut l = 0; for i in 0..4u8 { w[l] = i; l += 1; if i == k { break } w[l] = 10 + i; l += 1 } g.is(&w[..l], 20); lit("x"); end(b, "x") }
    h_23_exit_render(b) { let g = G::new(); let k = choose(3); let r = (|| Some(render!(g.e(1), p!(g.s(2, if k == 0 { None } else { Some("y") })?), iter!(g.s(3, if k == 1 { None } else { Some([V(&g, 4)]) })?))))(); g.is([&[1, 2][..], &[1, 2, 3], &[1, 2, 3, 101, 104]][k], 20); if k == 2 { w!["B<p>y</p>E"] } end(b, r.map(laby::RenderRaw)) }
    h_23_exit_comp(b) { let g = G::new(); let k = choose(4); let o = |i: u8, n: usize| g.s(i, if k == n { None } else { Some(()) });
        let r = (|| Some(comp!(c = { o(3, 0)?; V(&g, 3) }, a = { o(1, 1)?; V(&g, 1) }, b = { o(2, 2)?; V(&g, 2) })))(); g.is([&[1, 2, 3][..], &[1], &[1, 2], &[1, 2, 3]][k], 20); if k == 3 { w!["<p>BCD</p>"] } end(b, r) }
    h_23_dropped_branch(b) { let g = G::new(); w!["<p>x</p>"]; let k = false; go!(b, g, p!(frag_match!(if k { g.e(1) } else { "x" })), [], []) }
}
#[laby] fn comp<'a>(a: V<'a>, b: V<'a>, c: V<'a>) -> impl Render + 'a { p!(a, b, c) }
#[laby] fn rest<'a>(a: V<'a>, #[rest] r: impl Render + 'a) -> impl Render + 'a { p!(r, i = a) }
