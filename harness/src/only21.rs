//! components of every visibility (only here: the paths name this module)
use crate::pre::*;
use laby::*;
pub mod vis {
    pub mod a {
        use laby::*;
        #[laby] pub(super) fn up(x: &'static str) -> impl Render { b!(x) }
        #[laby] pub(in crate::only21::vis) fn in_vis(x: &'static str, #[default(3)] n: u8) -> impl Render { i!(x, n) }
        #[laby] pub(in crate::only21) fn in_c21(#[rest] r: impl Render) -> impl Render { u!(r) }
        #[laby] pub(in super::super) fn in_upper(x: &'static str) -> impl Render { s!(x) }
        #[laby] pub(crate) fn in_crate(x: &'static str) -> impl Render { q!(x) }
        #[laby] pub fn public(x: &'static str) -> impl Render { em!(x) }
        #[laby] pub(self) fn own(x: &'static str) -> impl Render { p!(x) }
        #[laby] pub(in self) fn own_in(x: &'static str) -> impl Render { h1!(x) }
        #[laby] fn private(x: &'static str) -> impl Render { h2!(x) }
        pub fn inside(x: &'static str) -> impl Render { frag!(own!(x = x), private!(x = x), own_in!(x = x), deeper::still(x)) }
        mod deeper { use laby::*; use super::{own, private, own_in}; pub fn still(x: &'static str) -> impl Render { frag!(own!(x = x), private!(x = x), own_in!(x = x)) } }
    }
    pub mod c { use laby::*; use super::a::{up, in_vis, in_c21, in_upper, in_crate, public}; pub fn sibling(x: &'static str) -> impl Render { frag!(up!(x = x), in_vis!(x = x), in_c21!(x), in_upper!(x = x), in_crate!(x = x), public!(x = x)) } }
    pub(in crate::only21) use a::in_c21 as renamed; pub use a::public as again;
    pub fn parent(x: &'static str) -> impl laby::Render { use a::*; use laby::frag; frag!(up!(x = x), in_vis!(n = 4, x = x), in_c21!(), in_upper!(x = x), in_crate!(x = x), public!(x = x)) }
}
case! {
    h_21_vis_parent(b) { let x = t(1); w!["<b>", [x], "</b><i>", [x], "4</i><u></u><s>", [x], "</s><q>", [x], "</q><em>", [x], "</em>"]; end(b, vis::parent(x)) }
    h_21_vis_sibling(b) { let x = t(1); w!["<b>", [x], "</b><i>", [x], "3</i><u>", [x], "</u><s>", [x], "</s><q>", [x], "</q><em>", [x], "</em>"]; end(b, vis::c::sibling(x)) }
    h_21_vis_inside(b) { let x = t(1); w!["<p>", [x], "</p><h2>", [x], "</h2><h1>", [x], "</h1>", "<p>", [x], "</p><h2>", [x], "</h2><h1>", [x], "</h1>"]; end(b, vis::a::inside(x)) }
    h_21_vis_here(b) { use vis::a::{in_c21, in_upper, in_crate, public}; let x = t(1); w!["<u>", [x], "</u><s>", [x], "</s><q>", [x], "</q><em>", [x], "</em>"]; end(b, frag!(in_c21!(x), in_upper!(x = x), in_crate!(x = x), public!(x = x))) }
    h_21_vis_renamed(b) { use vis::{renamed, again}; use vis::a::in_c21; use vis::a::public; let x = t(1); w!["<u>", [x], "</u><em>", [x], "</em><u>", [x], "</u>"]; end(b, frag!(in_c21!(x), public!(x = x), in_c21(x))) }
    h_21_vis_glob(b) { use vis::a::*; let x = t(1); w!["<u>", [x], "</u><q>", [x], "</q>"]; end(b, frag!(in_c21!(x), in_crate!(x = x))) }
    h_21_vis_path(b) { let x = t(1); w!["<u>", [x], "</u><q>", [x], "</q>"]; use vis::a; let u = { use a::in_c21; in_c21!(x) }; end(b, frag!(u, a::in_crate(x))) }
    // parameter names that are almost the same
    h_21_names_case(b) { let x = t(1); let y = t(1); w!["1", [x], "2", [y], "3"]; end(b, match choose(4) { 0 => names(x, 1, y, 2, 3), 1 => names!(x = x, xx = 1, X = y, Xx = 2, xX = 3), 2 => names!(xX = 3, Xx = 2, X = y, xx = 1, x = x), _ => names!(X = y, x = x, Xx = 2, xX = 3, xx = 1) }) }
    h_21_names_like(b) { let x = t(1); let y = t(1); w![[x], "-", [y], "-3-4-5-6-7"]; end(b, match choose(3) { 0 => like(x, y, 3, 4, 5, 6, 7), 1 => like!(a_b = x, ab = y, a__b = 3, a_b_ = 4, _a_b = 5, a_b1 = 6, a_1b = 7), _ => like!(a_1b = 7, a_b1 = 6, _a_b = 5, a_b_ = 4, a__b = 3, ab = y, a_b = x) }) }
    h_21_names_tags(b) { let x = t(1); let y = t(1); w!["<b>", [x], "</b>", [y], "c<i>d</i>"]; end(b, match choose(3) { 0 => tags(x, y, "c", "d"), 1 => tags!(b = x, frag = y, classes = "c", i = "d"), _ => tags!(i = "d", classes = "c", b = x, frag = y) }) }
    h_21_names_uni(b) { let x = t(1); let y = t(1); w![[x], [y], "3", [x]]; end(b, match choose(2) { 0 => uni!(é = x, e = y, É = 3, ß = x), _ => uni!(ß = x, É = 3, e = y, é = x) }) }
    h_21_names_default(b) { let x = t(1); let y = t(1); match choose(4) { 0 => { w![[x], "X", [y]]; end(b, deft!(v = x, y)) } 1 => { w!["v", [x], [y]]; end(b, deft!(y, V = x)) } 2 => { w![[y], [x]]; end(b, deft!(V = x, v = y)) } _ => { w!["vX"]; end(b, deft!()) } } }
}
#[laby] #[allow(non_snake_case)] fn names(x: &'static str, xx: u8, X: &'static str, Xx: u8, xX: u8) -> impl Render { frag!(xx, x, Xx, X, xX) }
#[laby] fn like(a_b: &'static str, ab: &'static str, a__b: u8, a_b_: u8, _a_b: u8, a_b1: u8, a_1b: u8) -> impl Render { iter!("-", [Some(frag!(a_b, "-", ab)).map(|f| laby::RenderRaw(render!(f))).unwrap().0, render!(a__b), render!(a_b_), render!(_a_b), render!(a_b1), render!(a_1b)].into_iter().map(laby::RenderRaw)) }
#[laby] fn tags(b: &'static str, frag: &'static str, classes: &'static str, i: &'static str) -> impl Render { frag!(b!(b), frag, classes, i!(i)) }
#[laby] #[allow(non_snake_case)] fn uni(é: &'static str, e: &'static str, É: u8, ß: &'static str) -> impl Render { frag!(é, e, É, ß) }
#[laby] #[allow(non_snake_case)] fn deft(#[default("v")] v: &'static str, #[default("X")] V: &'static str, #[rest] r: impl Render) -> impl Render { frag!(v, V, r) }
