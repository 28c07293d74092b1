//! components of every signature (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{string::String, format, vec, vec::Vec};
fn idf<T>(v: T) -> T { v }
fn idb(v: bool) -> bool { v }
unsafe fn idu<T>(v: T) -> T { v }
struct S0s { f: &'static str }
static S0: S0s = S0s { f: "f0" };
impl S0s { fn m<T>(&self, v: T) -> T { v } }
struct P0<A, B> { a: A, b: B }
struct W0<T>(T);
impl<T: Render> Render for W0<T> { fn render(self, buffer: &mut Buffer) { self.0.render(buffer) } }
const K7: u8 = 7;
mod mk { pub const SEV: u8 = 7; }
const NM: [&str; 2] = ["n0", "n1"];
fn nm(s: &'static str) -> &'static str { s }
#[allow(non_upper_case_globals)] const id0: &str = "data-id0";
macro_rules! idm { ($e:expr) => { $e } }
macro_rules! const0 { ($e:expr) => {{ const C0: &str = $e; C0 }} }
#[laby] fn cmp0(#[rest] r: impl Render) -> impl Render { section!(r) }
#[laby] fn cmp1(a: impl Render, #[default("dflt")] b: impl Render) -> impl Render { frag!("{", a, "|", b, "}") }
#[laby] fn cmp2(title: impl Render, #[rest] body: impl Render) -> impl Render { frag!(h1!(title), body) }
#[laby] pub(crate) fn cg00(#[allow(unused_variables)] _hidden: Option<&'static str>, body: u8, #[allow(unused_variables)] href: Option<&'static str>, #[default] name: Option<&'static str>, #[allow(unused_variables)] #[default] title: bool, #[rest] id: impl Render) -> impl Render { frag!("(", _hidden, ";", body, ";", href, ";", name, ";", title, ";", id, ")") }
#[laby] pub(crate) fn cg01(#[default(3)] buffer: u8, children: Option<&'static str>, #[rest] very_long_parameter_name: impl Render, #[default(None)] title: Option<&'static str>) -> impl Render { frag!("(", buffer, ";", children, ";", very_long_parameter_name, ";", title, ")") }
#[laby] fn cg02(buffer: impl Render, #[allow(unused_variables)] item: u8, #[rest] aA: impl Render, #[default] c: bool, index: &'static str, #[default] b: bool) -> impl Render { frag!("(", buffer, ";", item, ";", aA, ";", c, ";", index, ";", b, ")") }
#[laby] fn cg03(r#type: &'static str, #[rest] r#for: impl Render) -> impl Render { frag!("(", r#type, ";", r#for, ")") }
#[laby] pub fn cg04(rest_: &'static str, #[default(Some("so"))] title: Option<&'static str>, #[default(1 + 2 * 3)] buffer: u8) -> impl Render { frag!("(", rest_, ";", title, ";", buffer, ")") }
#[laby] fn cg05(#[rest] rest_: impl Render) -> impl Render { frag!("(", rest_, ")") }
#[laby] pub fn cg06(r#for: impl Render, t1: bool, #[allow(unused_mut)] id: u8, #[default(Some("so"))] buffer: Option<&'static str>, x1: impl Render, #[allow(unused_variables)] title: impl Render) -> impl Render { frag!("(", r#for, ";", t1, ";", id, ";", buffer, ";", x1, ";", title, ")") }
#[laby] pub(crate) fn cg07(name: Option<&'static str>, title: bool, #[rest] #[allow(unused_mut)] buffer: impl Render, #[allow(unused_variables)] #[default("d3")] body: &'static str,) -> impl Render { frag!("(", name, ";", title, ";", buffer, ";", body, ")") }
#[laby] fn cg08(#[default(b!("x"))] index: impl Render) -> impl Render { frag!("(", index, ")") }
#[laby] fn cg09(#[default(Some("so"))] #[allow(unused_mut)] item: Option<&'static str>, a: u8, index: Option<&'static str>) -> impl Render { frag!("(", item, ";", a, ";", index, ")") }
#[laby] pub(crate) fn cg10(#[rest] index: impl Render, #[default("d1")] name: &'static str, rest_: bool, #[allow(unused_variables)] buffer: impl Render, #[default] a: Option<&'static str>, mut item: Option<&'static str>) -> impl Render { frag!("(", index, ";", name, ";", rest_, ";", buffer, ";", a, ";", item, ")") }
#[laby] fn cg11(#[default(1 + 2 * 3)] very_long_parameter_name: u8, #[rest] div: impl Render, #[allow(unused_variables)] #[default(None)] b: Option<&'static str>, #[default] r#type: &'static str, #[default] mut name: Option<&'static str>, rest_: impl Render) -> impl Render { frag!("(", very_long_parameter_name, ";", div, ";", b, ";", r#type, ";", name, ";", rest_, ")") }
#[laby] fn cg12(#[default] x1: &'static str, r#type: bool, item: u8, value: u8) -> impl Render { frag!("(", x1, ";", r#type, ";", item, ";", value, ")") }
#[laby] fn cg13(b: &'static str, name: impl Render, #[default] mut index: Option<&'static str>, href: &'static str, class: &'static str, mut _hidden: impl Render) -> impl Render { frag!("(", b, ";", name, ";", index, ";", href, ";", class, ";", _hidden, ")") }
#[laby] fn cg14(#[default({ let q = 4; q })] #[allow(unused_mut)] b: impl Render, r#type: Option<&'static str>, #[default("dr")] rest_: impl Render, div: bool) -> impl Render { frag!("(", b, ";", r#type, ";", rest_, ";", div, ")") }
#[laby] pub(crate) fn cg15(#[rest] b: impl Render, #[default(None)] _hidden: Option<&'static str>, div: bool, r#type: &'static str) -> impl Render { frag!("(", b, ";", _hidden, ";", div, ";", r#type, ")") }
#[laby] fn cg16(#[rest] _hidden: impl Render, item: &'static str,) -> impl Render { frag!("(", _hidden, ";", item, ")") }
#[laby] fn cg17(#[default] rest_: &'static str, #[default({ let q = 4; q })] mut r#type: impl Render) -> impl Render { frag!("(", rest_, ";", r#type, ")") }
#[laby] fn cg18(#[rest] title: impl Render) -> impl Render { frag!("(", title, ")") }
#[laby] pub fn cg19(r#type: &'static str, #[rest] index: impl Render,) -> impl Render { frag!("(", r#type, ";", index, ")") }
#[laby] fn cg20(_hidden: &'static str, #[allow(unused_variables)] #[default] t1: &'static str, aA: impl Render) -> impl Render { frag!("(", _hidden, ";", t1, ";", aA, ")") }
#[laby] fn cg21(mut children: &'static str, #[default(1 + 2 * 3)] _hidden: u8, r#type: bool, #[default(b!("x"))] value: impl Render, #[rest] mut id: impl Render, name: impl Render) -> impl Render { frag!("(", children, ";", _hidden, ";", r#type, ";", value, ";", id, ";", name, ")") }
#[laby] pub(crate) fn cg22(#[default("d0")] mut class: &'static str) -> impl Render { frag!("(", class, ")") }
#[laby] fn cg23(#[default] r#type: &'static str, #[rest] index: impl Render, #[default(None)] title: Option<&'static str>, div: &'static str, #[default(Some("so"))] mut name: Option<&'static str>) -> impl Render { frag!("(", r#type, ";", index, ";", title, ";", div, ";", name, ")") }
#[laby] pub fn cg24(#[allow(unused_mut)] body: &'static str, #[allow(unused_mut)] div: u8, #[rest] r#type: impl Render, mut name: impl Render) -> impl Render { frag!("(", body, ";", div, ";", r#type, ";", name, ")") }
#[laby] pub(crate) fn cg25(aA: impl Render, name: u8, #[allow(unused_variables)] b: bool, href: Option<&'static str>, #[default(7)] item: u8, id: bool) -> impl Render { frag!("(", aA, ";", name, ";", b, ";", href, ";", item, ";", id, ")") }
#[laby] pub(crate) fn cg26(value: u8, href: u8, div: bool, item: bool,) -> impl Render { frag!("(", value, ";", href, ";", div, ";", item, ")") }
#[laby] fn cg27(#[default(true)] c: bool, #[rest] body: impl Render,) -> impl Render { frag!("(", c, ";", body, ")") }
#[laby] fn cg28(#[default(1 + 2 * 3)] aA: u8, #[default(None)] very_long_parameter_name: Option<&'static str>, #[rest] #[allow(unused_mut)] r#type: impl Render, title: u8, href: bool, t1: &'static str) -> impl Render { frag!("(", aA, ";", very_long_parameter_name, ";", r#type, ";", title, ";", href, ";", t1, ")") }
#[laby] fn cg29(#[rest] #[allow(unused_mut)] div: impl Render, #[default] id: Option<&'static str>, #[default] t1: u8, index: bool) -> impl Render { frag!("(", div, ";", id, ";", t1, ";", index, ")") }
#[laby] fn cg30(#[default(!false && 1 < 2)] href: bool, r#type: u8, t1: &'static str) -> impl Render { frag!("(", href, ";", r#type, ";", t1, ")") }
#[laby] pub fn cg31(#[rest] href: impl Render,) -> impl Render { frag!("(", href, ")") }
#[laby] fn cg32(#[rest] class: impl Render, #[default(None)] body: Option<&'static str>) -> impl Render { frag!("(", class, ";", body, ")") }
#[laby] pub fn cg33(#[allow(unused_variables)] #[rest] children: impl Render, #[default(None)] body: Option<&'static str>, #[default] t1: Option<&'static str>) -> impl Render { frag!("(", children, ";", body, ";", t1, ")") }
#[laby] pub(crate) fn cg34(#[allow(unused_mut)] r#type: impl Render, #[rest] c: impl Render, #[allow(unused_variables)] title: &'static str) -> impl Render { frag!("(", r#type, ";", c, ";", title, ")") }
#[laby] pub(crate) fn cg35(#[default(b!("x"))] r#type: impl Render, item: u8, #[default] t1: &'static str, body: Option<&'static str>, #[rest] #[allow(unused_mut)] id: impl Render, class: u8) -> impl Render { frag!("(", r#type, ";", item, ";", t1, ";", body, ";", id, ";", class, ")") }
#[laby] fn cg36(c: Option<&'static str>, #[default("d1")] buffer: &'static str, #[default(5)] div: u8, #[rest] id: impl Render, x1: Option<&'static str>, aA: Option<&'static str>) -> impl Render { frag!("(", c, ";", buffer, ";", div, ";", id, ";", x1, ";", aA, ")") }
#[laby] fn cg37(#[rest] very_long_parameter_name: impl Render,) -> impl Render { frag!("(", very_long_parameter_name, ")") }
#[laby] pub(crate) fn cg38(name: u8, #[default(concat!("d", "<"))] b: &'static str, href: impl Render, mut x1: u8, rest_: bool, buffer: &'static str,) -> impl Render { frag!("(", name, ";", b, ";", href, ";", x1, ";", rest_, ";", buffer, ")") }
#[laby] fn cg39(#[allow(unused_variables)] #[default(1 + 2 * 3)] id: u8, #[allow(unused_variables)] #[default(None)] x1: Option<&'static str>) -> impl Render { frag!("(", id, ";", x1, ")") }
#[laby] fn cg40(#[rest] r#type: impl Render) -> impl Render { frag!("(", r#type, ")") }
#[laby] fn cg41(#[default(b!("x"))] _hidden: impl Render, #[default] r#type: bool, #[rest] class: impl Render, #[default] #[allow(unused_mut)] mut name: bool, #[default("d4")] t1: &'static str, #[default("d5")] href: &'static str) -> impl Render { frag!("(", _hidden, ";", r#type, ";", class, ";", name, ";", t1, ";", href, ")") }
#[laby] pub fn cg42(#[default(None)] value: Option<&'static str>, #[default(Some("so"))] name: Option<&'static str>, a: &'static str, #[default("dr")] aA: impl Render, #[default(7)] #[allow(unused_mut)] r#type: u8) -> impl Render { frag!("(", value, ";", name, ";", a, ";", aA, ";", r#type, ")") }
#[laby] pub(crate) fn cg43(#[allow(unused_variables)] name: bool, #[allow(unused_variables)] #[default(None)] href: Option<&'static str>, id: bool, #[default] mut r#for: u8, _hidden: &'static str) -> impl Render { frag!("(", name, ";", href, ";", id, ";", r#for, ";", _hidden, ")") }
#[laby] fn cg44(c: impl Render, index: impl Render, #[allow(unused_variables)] #[default] a: u8, #[rest] id: impl Render, mut t1: Option<&'static str>, #[default(concat!("d", "<"))] buffer: &'static str) -> impl Render { frag!("(", c, ";", index, ";", a, ";", id, ";", t1, ";", buffer, ")") }
#[laby] fn cg45(#[default] r#for: &'static str) -> impl Render { frag!("(", r#for, ")") }
#[laby] fn cg46(#[default] a: Option<&'static str>, #[rest] div: impl Render) -> impl Render { frag!("(", a, ";", div, ")") }
#[laby] fn cg47(a: impl Render, r#type: u8, #[default] c: Option<&'static str>, id: bool) -> impl Render { frag!("(", a, ";", r#type, ";", c, ";", id, ")") }
#[laby] fn cg48(#[default("d0")] very_long_parameter_name: &'static str) -> impl Render { frag!("(", very_long_parameter_name, ")") }
#[laby] fn cg49(#[rest] body: impl Render, #[default(true)] very_long_parameter_name: bool, #[allow(unused_variables)] rest_: u8) -> impl Render { frag!("(", body, ";", very_long_parameter_name, ";", rest_, ")") }
#[laby] pub(crate) fn cg50(#[allow(unused_variables)] #[default] very_long_parameter_name: Option<&'static str>, #[allow(unused_variables)] #[default(4)] body: u8, #[rest] div: impl Render) -> impl Render { frag!("(", very_long_parameter_name, ";", body, ";", div, ")") }
#[laby] fn cg51(name: &'static str, #[default(())] b: impl Render, buffer: u8, #[allow(unused_variables)] class: bool,) -> impl Render { frag!("(", name, ";", b, ";", buffer, ";", class, ")") }
#[laby] pub(crate) fn cg52(#[rest] #[allow(unused_mut)] t1: impl Render, children: u8, very_long_parameter_name: u8, #[default(!false && 1 < 2)] title: bool, #[default(7)] x1: u8) -> impl Render { frag!("(", t1, ";", children, ";", very_long_parameter_name, ";", title, ";", x1, ")") }
#[laby] pub fn cg53(#[allow(unused_variables)] #[rest] body: impl Render) -> impl Render { frag!("(", body, ")") }
#[laby] pub(crate) fn cg54(#[default] r#for: &'static str, #[default(concat!("d", "<"))] rest_: &'static str, div: impl Render, #[rest] aA: impl Render) -> impl Render { frag!("(", r#for, ";", rest_, ";", div, ";", aA, ")") }
#[laby] pub(crate) fn cg55(#[default] r#type: u8, r#for: &'static str, #[default(true)] #[allow(unused_mut)] title: bool, #[rest] href: impl Render) -> impl Render { frag!("(", r#type, ";", r#for, ";", title, ";", href, ")") }
#[laby] pub fn cg56(children: u8, #[allow(unused_variables)] #[default(concat!("d", "<"))] rest_: &'static str, title: u8, #[default(())] b: impl Render, #[rest] #[allow(unused_mut)] r#for: impl Render) -> impl Render { frag!("(", children, ";", rest_, ";", title, ";", b, ";", r#for, ")") }
#[laby] pub fn cg57(c: bool, name: Option<&'static str>, #[default("dr")] href: impl Render) -> impl Render { frag!("(", c, ";", name, ";", href, ")") }
#[laby] fn cg58(#[rest] a: impl Render, #[default] #[allow(unused_mut)] class: Option<&'static str>, href: &'static str, b: u8, #[allow(unused_variables)] #[default({ let q = 4; q })] name: impl Render, r#type: impl Render) -> impl Render { frag!("(", a, ";", class, ";", href, ";", b, ";", name, ";", r#type, ")") }
#[laby] pub(crate) fn cg59(#[default(3)] t1: u8, r#type: &'static str, title: &'static str, _hidden: impl Render, name: impl Render) -> impl Render { frag!("(", t1, ";", r#type, ";", title, ";", _hidden, ";", name, ")") }
#[laby] fn cg60(#[default(1 + 2 * 3)] href: u8, t1: bool, #[default(Some("so"))] buffer: Option<&'static str>) -> impl Render { frag!("(", href, ";", t1, ";", buffer, ")") }
#[laby] pub(crate) fn cg61(mut class: &'static str, #[rest] x1: impl Render, #[allow(unused_variables)] #[default(!false && 1 < 2)] c: bool, #[default("dr")] r#for: impl Render) -> impl Render { frag!("(", class, ";", x1, ";", c, ";", r#for, ")") }
#[laby] pub(crate) fn cg62(#[rest] a: impl Render) -> impl Render { frag!("(", a, ")") }
#[laby] pub fn cg63(#[default] b: bool, #[allow(unused_variables)] item: Option<&'static str>, x1: Option<&'static str>, #[allow(unused_variables)] #[default(1 + 2 * 3)] c: u8) -> impl Render { frag!("(", b, ";", item, ";", x1, ";", c, ")") }
#[laby] pub fn cg64(#[default] very_long_parameter_name: &'static str, #[rest] a: impl Render, item: u8, #[default(true)] _hidden: bool) -> impl Render { frag!("(", very_long_parameter_name, ";", a, ";", item, ";", _hidden, ")") }
#[laby] fn cg65(#[allow(unused_variables)] #[default(3)] c: u8, x1: u8, _hidden: u8, #[default(b!("x"))] name: impl Render) -> impl Render { frag!("(", c, ";", x1, ";", _hidden, ";", name, ")") }
#[laby] fn cg66(c: Option<&'static str>, name: bool, #[allow(unused_variables)] _hidden: u8, #[rest] x1: impl Render, #[default(None)] #[allow(unused_mut)] class: Option<&'static str>) -> impl Render { frag!("(", c, ";", name, ";", _hidden, ";", x1, ";", class, ")") }
#[laby] pub fn cg67(buffer: u8, aA: Option<&'static str>, #[default(concat!("d", "<"))] b: &'static str, #[allow(unused_variables)] #[default(b!("x"))] r#type: impl Render, #[default] div: u8, a: bool) -> impl Render { frag!("(", buffer, ";", aA, ";", b, ";", r#type, ";", div, ";", a, ")") }
#[laby] fn cg68(#[default(())] mut rest_: impl Render) -> impl Render { frag!("(", rest_, ")") }
#[laby] pub(crate) fn cg69(#[rest] div: impl Render, #[default(None)] a: Option<&'static str>) -> impl Render { frag!("(", div, ";", a, ")") }
#[laby] fn cg70(#[default] rest_: bool, a: Option<&'static str>, r#type: u8, x1: impl Render) -> impl Render { frag!("(", rest_, ";", a, ";", r#type, ";", x1, ")") }
#[laby] pub fn cg71(#[default] title: &'static str, #[default(true)] mut very_long_parameter_name: bool) -> impl Render { frag!("(", title, ";", very_long_parameter_name, ")") }
#[laby] fn cg72(#[default(Some("so"))] item: Option<&'static str>, div: u8) -> impl Render { frag!("(", item, ";", div, ")") }
#[laby] fn cg73(buffer: &'static str) -> impl Render { frag!("(", buffer, ")") }
#[laby] fn cg74(#[rest] very_long_parameter_name: impl Render, x1: Option<&'static str>) -> impl Render { frag!("(", very_long_parameter_name, ";", x1, ")") }
#[laby] fn cg75(#[allow(unused_variables)] #[default(true)] name: bool, #[rest] aA: impl Render, #[default(!false && 1 < 2)] body: bool, #[default(None)] c: Option<&'static str>, #[default({ let q = 4; q })] id: impl Render) -> impl Render { frag!("(", name, ";", aA, ";", body, ";", c, ";", id, ")") }
#[laby] fn cg76(#[allow(unused_variables)] #[rest] value: impl Render) -> impl Render { frag!("(", value, ")") }
#[laby] fn cg77(c: &'static str, #[default(true)] a: bool, children: u8, body: bool, #[default(1 + 2 * 3)] #[allow(unused_mut)] mut rest_: u8) -> impl Render { frag!("(", c, ";", a, ";", children, ";", body, ";", rest_, ")") }
#[laby] fn cg78(name: u8, #[default] value: u8, #[default(Some("so"))] class: Option<&'static str>) -> impl Render { frag!("(", name, ";", value, ";", class, ")") }
#[laby] fn cg79(#[default(None)] id: Option<&'static str>, div: u8, #[allow(unused_variables)] c: impl Render) -> impl Render { frag!("(", id, ";", div, ";", c, ")") }
case! {
    h_21_g000(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(;"); lit_dec(v as u32); lit(";"); esc(x); lit(";;"); lit(if v == 3 { "true" } else { "false" }); lit(";5l&lt;"); lit_dec(v as u32); lit(")"); end(b, cg00!(_hidden = None, 5, frag!(), "l<", href = Some(x), body = v, Some(v), title = v == 3)) } 1 => { lit("(;"); lit_dec(v as u32); lit(";"); esc(x); lit(";;"); lit(if v == 3 { "true" } else { "false" }); lit(";5l&lt;"); lit_dec(v as u32); lit(")"); end(b, cg00(None, v, Some(x), Default::default(), v == 3, frag!(5, frag!(), "l<", Some(v)))) } 2 => { lit("("); esc(x); lit(";"); lit_dec(v as u32); lit(";"); if k { esc(y); } lit(";;true;"); esc(x); lit(if v == 3 { "true" } else { "false" }); lit("-1)"); end(b, cg00!(frag!(), href = if k { Some(y) } else { None }, x, _hidden = Some(x), v == 3, -1, title = true, name = None, body = v)) } _ => { lit("("); if k { esc(y); } lit(";9;"); if k { esc(y); } lit(";;"); lit(if k { "true" } else { "false" }); lit(";)"); end(b, cg00!(name = None, body = 9, _hidden = if k { Some(y) } else { None }, title = k, href = if k { Some(y) } else { None })) } } }
    h_21_g001(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(3;;;"); if k { esc(y); } lit(")"); end(b, cg01!(children = None, frag!(), title = if k { Some(y) } else { None })) } 1 => { lit("(3;;;"); if k { esc(y); } lit(")"); end(b, cg01((3), None, frag!(frag!()), if k { Some(y) } else { None })) } 2 => { lit("("); lit_dec(v as u32 / 2); lit(";"); if k { esc(y); } lit(";l&lt;"); esc(x); lit("-1;)"); end(b, cg01!(children = if k { Some(y) } else { None }, "l<", { x }, -1, buffer = v / 2)) } _ => { lit("(3;"); esc(x); lit(";"); esc(y); lit(if k { "1" } else { "2" }); lit("<section>1</section><b>"); esc(y); lit("</b>;)"); end(b, cg01!(idf(y), children = Some(x), if k { 1 } else { 2 }, cmp0!(1), b!(y))) } } }
    h_21_g002(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(x); lit(";9;l&lt;-1<b>"); esc(y); lit("</b><br>;"); lit(if k { "false" } else { "true" }); lit(";"); esc(y); lit(";false)"); end(b, cg02!("l<", item = 9, -1, b!(y), c = !k, buffer = x, br!(), index = y)) } 1 => { lit("("); esc(x); lit(";9;l&lt;-1<b>"); esc(y); lit("</b><br>;"); lit(if k { "false" } else { "true" }); lit(";"); esc(y); lit(";false)"); end(b, cg02(x, 9, frag!("l<", -1, b!(y), br!()), !k, y, Default::default())) } 2 => { lit("(1"); esc(x); lit(";"); lit_dec(v as u32); lit(";"); esc(y); lit(";"); lit(if k { "true" } else { "false" }); lit(";"); esc(x); lit(";false)"); end(b, cg02!(item = v, c = k, idf(y), buffer = frag!(1, x), index = x)) } _ => { lit("(&lt;;9;"); lit(if k { "1" } else { "2" }); lit("<section>1</section>;false;k;false)"); end(b, cg02!(item = 9, if k { 1 } else { 2 }, cmp0!(1), index = "k", buffer = '<')) } } }
    h_21_g003(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(x); lit(";-15)"); end(b, cg03!(-1, r#type = { x }, 5)) } 1 => { lit("("); esc(x); lit(";-15)"); end(b, cg03({ x }, frag!(-1, 5))) } 2 => { lit("(k;<b>"); esc(y); lit("</b><br>l&lt;)"); end(b, cg03!(b!(y), br!(), "l<", r#type = "k")) } _ => { lit("("); esc(x); lit(";<b>"); esc(y); lit("</b>5)"); end(b, cg03!(b!(y), 5, r#type = x)) } } }
    h_21_g004(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(y); lit(";so;7)"); end(b, cg04!(rest_ = y)) } 1 => { lit("("); esc(y); lit(";so;7)"); end(b, cg04(y, (Some("so")), (1 + 2 * 3))) } 2 => { lit("("); esc(x); lit(";so;"); lit_dec(v as u32 / 2); lit(")"); end(b, cg04!(rest_ = { x }, buffer = v / 2)) } _ => { lit("("); esc(if k { x } else { y }); lit(";"); esc(x); lit(";"); lit_dec(v as u32 / 2); lit(")"); end(b, cg04!(title = Some(x), buffer = v / 2, rest_ = if k { x } else { y })) } } }
    h_21_g005(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(5)"); end(b, cg05!(5)) } 1 => { lit("(5)"); end(b, cg05(frag!(5))) } 2 => { lit("("); lit(if k { "1" } else { "2" }); esc(x); lit("<section>1</section>)"); end(b, cg05!(if k { 1 } else { 2 }, x as &str, cmp0!(1))) } _ => { lit("()"); end(b, cg05!()) } } }
    h_21_g006(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("({"); esc(y); lit("|dflt};"); lit(if k { "true" } else { "false" }); lit(";9;;<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>;{"); esc(y); lit("|dflt})"); end(b, cg06!(r#for = cmp1!(a = y), id = 9, buffer = None, t1 = k, x1 = p!(y, id = v), title = cmp1!(a = y))) } 1 => { lit("({"); esc(y); lit("|dflt};"); lit(if k { "true" } else { "false" }); lit(";9;;<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>;{"); esc(y); lit("|dflt})"); end(b, cg06(cmp1!(a = y), k, 9, None, p!(y, id = v), cmp1!(a = y))) } 2 => { lit("(;"); lit(if k { "true" } else { "false" }); lit(";"); lit_dec(v as u32); lit(";so;;{"); esc(y); lit("|dflt})"); end(b, cg06!(x1 = (), title = cmp1!(a = y), t1 = k, r#for = (), id = v)) } _ => { lit("(<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>;"); lit(if v == 3 { "true" } else { "false" }); lit(";"); lit_dec(v as u32 / 2); lit(";"); esc(x); lit(";;<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>)"); end(b, cg06!(id = v / 2, buffer = Some(x), x1 = (), t1 = v == 3, r#for = p!(y, id = v), title = p!(y, id = v))) } } }
    h_21_g007(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(;true;<b>"); esc(y); lit("</b>l&lt;-1;d3)"); end(b, cg07!(title = true, b!(y), "l<", name = None, -1)) } 1 => { lit("(;true;<b>"); esc(y); lit("</b>l&lt;-1;d3)"); end(b, cg07(None, true, frag!(b!(y), "l<", -1), ("d3"))) } 2 => { lit("("); if k { esc(y); } lit(";"); lit(if v == 3 { "true" } else { "false" }); lit(";;"); esc(x); lit(")"); end(b, cg07!(body = x, name = if k { Some(y) } else { None }, title = v == 3)) } _ => { lit("("); if k { esc(y); } lit(";true;<b>"); esc(y); lit("</b>"); esc(x); lit(";d3)"); end(b, cg07!(b!(y), title = true, name = if k { Some(y) } else { None }, x as &str)) } } }
    h_21_g008(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("({"); esc(y); lit("|dflt})"); end(b, cg08!(index = cmp1!(a = y))) } 1 => { lit("({"); esc(y); lit("|dflt})"); end(b, cg08(cmp1!(a = y))) } 2 => { lit("({"); esc(y); lit("|dflt})"); end(b, cg08!(index = cmp1!(a = y))) } _ => { lit("(1"); esc(x); lit(")"); end(b, cg08!(index = frag!(1, x))) } } }
    h_21_g009(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(;"); lit_dec(v as u32); lit(";)"); end(b, cg09!(item = None, index = None, a = v)) } 1 => { lit("(;"); lit_dec(v as u32); lit(";)"); end(b, cg09(None, v, None)) } 2 => { lit("(so;9;"); if k { esc(y); } lit(")"); end(b, cg09!(a = 9, index = if k { Some(y) } else { None })) } _ => { lit("(so;"); lit_dec(v as u32); lit(";)"); end(b, cg09!(a = v, index = None)) } } }
    h_21_g010(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(;d1;"); lit(if v == 3 { "true" } else { "false" }); lit(";&lt;;;"); esc(x); lit(")"); end(b, cg10!(buffer = '<', rest_ = v == 3, item = Some(x))) } 1 => { lit("(;d1;"); lit(if v == 3 { "true" } else { "false" }); lit(";&lt;;;"); esc(x); lit(")"); end(b, cg10(frag!(), ("d1"), v == 3, '<', Default::default(), Some(x))) } 2 => { lit("(l&lt;l&lt;5;k;true;<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>;"); esc(x); lit(";)"); end(b, cg10!(rest_ = true, "l<", a = Some(x), "l<", name = "k", 5, item = None, buffer = p!(y, id = v))) } _ => { lit("(-1<section>1</section>"); lit_dec(v as u32); lit(";"); esc(if k { x } else { y }); lit(";"); lit(if k { "true" } else { "false" }); lit(";1"); esc(x); lit(";;)"); end(b, cg10!(-1, buffer = frag!(1, x), rest_ = k, item = None, name = if k { x } else { y }, cmp0!(1), Some(v))) } } }
    h_21_g011(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(9;-1;;"); esc(y); lit(";;)"); end(b, cg11!(rest_ = (), r#type = y, name = None, -1, very_long_parameter_name = 9)) } 1 => { lit("(9;-1;;"); esc(y); lit(";;)"); end(b, cg11(9, frag!(-1), (None), y, None, ())) } 2 => { lit("(7;5;;"); esc(if k { x } else { y }); lit(";"); esc(x); lit(";"); esc(x); lit(")"); end(b, cg11!(r#type = if k { x } else { y }, 5, name = Some(x), rest_ = x)) } _ => { lit("(7;<br>"); esc(x); lit("<b>"); esc(y); lit("</b>;;"); esc(y); lit(";;&lt;)"); end(b, cg11!(br!(), x as &str, b = None, rest_ = '<', b!(y), r#type = y)) } } }
    h_21_g012(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(x); lit(";"); lit(if v == 3 { "true" } else { "false" }); lit(";"); lit_dec(v as u32); lit(";"); lit_dec(v as u32 / 2); lit(")"); end(b, cg12!(x1 = { x }, item = v, r#type = v == 3, value = v / 2)) } 1 => { lit("("); esc(x); lit(";"); lit(if v == 3 { "true" } else { "false" }); lit(";"); lit_dec(v as u32); lit(";"); lit_dec(v as u32 / 2); lit(")"); end(b, cg12({ x }, v == 3, v, v / 2)) } 2 => { lit("(;true;"); lit_dec(v as u32 / 2); lit(";"); lit_dec(v as u32); lit(")"); end(b, cg12!(r#type = true, item = v / 2, value = v)) } _ => { lit("("); esc(if k { x } else { y }); lit(";"); lit(if v == 3 { "true" } else { "false" }); lit(";9;9)"); end(b, cg12!(x1 = if k { x } else { y }, item = 9, value = 9, r#type = v == 3)) } } }
    h_21_g013(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(x); lit(";<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>;"); esc(x); lit(";"); esc(x); lit(";"); esc(x); lit(";{"); esc(y); lit("|dflt})"); end(b, cg13!(_hidden = cmp1!(a = y), b = x, index = Some(x), name = p!(y, id = v), href = x, class = x)) } 1 => { lit("("); esc(x); lit(";<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>;"); esc(x); lit(";"); esc(x); lit(";"); esc(x); lit(";{"); esc(y); lit("|dflt})"); end(b, cg13(x, p!(y, id = v), Some(x), x, x, cmp1!(a = y))) } 2 => { lit("("); esc(x); lit(";{"); esc(y); lit("|dflt};"); esc(x); lit(";"); esc(x); lit(";"); esc(x); lit(";"); esc(x); lit(")"); end(b, cg13!(href = x, b = { x }, index = Some(x), name = cmp1!(a = y), class = { x }, _hidden = x)) } _ => { lit("("); esc(x); lit(";<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>;"); esc(x); lit(";"); esc(x); lit(";"); esc(if k { x } else { y }); lit(";)"); end(b, cg13!(name = p!(y, id = v), b = { x }, index = Some(x), class = if k { x } else { y }, href = x, _hidden = ())) } } }
    h_21_g014(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(x); lit(";;dr;"); lit(if k { "false" } else { "true" }); lit(")"); end(b, cg14!(b = x, r#type = None, div = !k)) } 1 => { lit("("); esc(x); lit(";;dr;"); lit(if k { "false" } else { "true" }); lit(")"); end(b, cg14(x, None, ("dr"), !k)) } 2 => { lit("("); esc(x); lit(";"); if k { esc(y); } lit(";1"); esc(x); lit(";"); lit(if v == 3 { "true" } else { "false" }); lit(")"); end(b, cg14!(rest_ = frag!(1, x), b = x, div = v == 3, r#type = if k { Some(y) } else { None })) } _ => { lit("(<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>;"); esc(x); lit(";dr;"); lit(if k { "false" } else { "true" }); lit(")"); end(b, cg14!(r#type = Some(x), b = p!(y, id = v), div = !k)) } } }
    h_21_g015(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(y); lit("l&lt;5;;"); lit(if v == 3 { "true" } else { "false" }); lit(";"); esc(x); lit(")"); end(b, cg15!(idf(y), "l<", 5, r#type = x, div = v == 3)) } 1 => { lit("("); esc(y); lit("l&lt;5;;"); lit(if v == 3 { "true" } else { "false" }); lit(";"); esc(x); lit(")"); end(b, cg15(frag!(idf(y), "l<", 5), (None), v == 3, x)) } 2 => { lit("(;;"); lit(if v == 3 { "true" } else { "false" }); lit(";"); esc(if k { x } else { y }); lit(")"); end(b, cg15!(div = v == 3, r#type = if k { x } else { y })) } _ => { lit("(;;"); lit(if k { "true" } else { "false" }); lit(";"); esc(y); lit(")"); end(b, cg15!(div = k, r#type = y)) } } }
    h_21_g016(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(-1<section>1</section>"); lit_dec(v as u32); lit(if v == 3 { "true" } else { "false" }); lit(";"); esc(if k { x } else { y }); lit(")"); end(b, cg16!(-1, cmp0!(1), item = if k { x } else { y }, Some(v), v == 3)) } 1 => { lit("(-1<section>1</section>"); lit_dec(v as u32); lit(if v == 3 { "true" } else { "false" }); lit(";"); esc(if k { x } else { y }); lit(")"); end(b, cg16(frag!(-1, cmp0!(1), Some(v), v == 3), if k { x } else { y })) } 2 => { lit("(<section>1</section>"); esc(x); lit("<br>;"); esc(x); lit(")"); end(b, cg16!(cmp0!(1), { x }, item = x, br!(), frag!())) } _ => { lit("("); esc(x); lit("l&lt;"); lit_dec(v as u32); lit(";"); esc(x); lit(")"); end(b, cg16!(x as &str, item = x, "l<", Some(v))) } } }
    h_21_g017(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(x); lit(";4)"); end(b, cg17!(rest_ = x)) } 1 => { lit("("); esc(x); lit(";4)"); end(b, cg17(x, ({ let q = 4; q }))) } 2 => { lit("("); esc(if k { x } else { y }); lit(";4)"); end(b, cg17!(rest_ = if k { x } else { y })) } _ => { lit("(;4)"); end(b, cg17!()) } } }
    h_21_g018(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(x); esc(x); lit(if k { "1" } else { "2" }); esc(x); lit(")"); end(b, cg18!(x as &str, x as &str, if k { 1 } else { 2 }, x as &str)) } 1 => { lit("("); esc(x); esc(x); lit(if k { "1" } else { "2" }); esc(x); lit(")"); end(b, cg18(frag!(x as &str, x as &str, if k { 1 } else { 2 }, x as &str))) } 2 => { lit("("); esc(y); lit(")"); end(b, cg18!(idf(y), frag!())) } _ => { lit("(-1)"); end(b, cg18!(-1)) } } }
    h_21_g019(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(y); lit(";<br>)"); end(b, cg19!(r#type = y, br!())) } 1 => { lit("("); esc(y); lit(";<br>)"); end(b, cg19(y, frag!(br!()))) } 2 => { lit("("); esc(y); lit(";"); esc(y); lit("<b>"); esc(y); lit("</b>-1)"); end(b, cg19!(r#type = y, idf(y), b!(y), -1)) } _ => { lit("("); esc(x); lit(";)"); end(b, cg19!(r#type = { x })) } } }
    h_21_g020(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(if k { x } else { y }); lit(";;)"); end(b, cg20!(aA = (), _hidden = if k { x } else { y })) } 1 => { lit("("); esc(if k { x } else { y }); lit(";;)"); end(b, cg20(if k { x } else { y }, Default::default(), ())) } 2 => { lit("("); esc(y); lit(";"); esc(if k { x } else { y }); lit(";1"); esc(x); lit(")"); end(b, cg20!(aA = frag!(1, x), t1 = if k { x } else { y }, _hidden = y)) } _ => { lit("("); esc(y); lit(";;{"); esc(y); lit("|dflt})"); end(b, cg20!(_hidden = y, aA = cmp1!(a = y))) } } }
    h_21_g021(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(k;7;"); lit(if k { "false" } else { "true" }); lit(";<b>x</b>;<br><b>"); esc(y); lit("</b>;<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>)"); end(b, cg21!(br!(), children = "k", name = p!(y, id = v), b!(y), r#type = !k)) } 1 => { lit("(k;7;"); lit(if k { "false" } else { "true" }); lit(";<b>x</b>;<br><b>"); esc(y); lit("</b>;<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>)"); end(b, cg21("k", (1 + 2 * 3), !k, (b!("x")), frag!(br!(), b!(y)), p!(y, id = v))) } 2 => { lit("("); esc(if k { x } else { y }); lit(";7;true;<b>x</b>;"); esc(x); lit(";1"); esc(x); lit(")"); end(b, cg21!({ x }, name = frag!(1, x), children = if k { x } else { y }, r#type = true)) } _ => { lit("("); esc(x); lit(";7;true;<b>x</b>;"); lit_dec(v as u32); lit(";&lt;)"); end(b, cg21!(Some(v), name = '<', children = { x }, r#type = true)) } } }
    h_21_g022(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(d0)"); end(b, cg22!()) } 1 => { lit("(d0)"); end(b, cg22(("d0"))) } 2 => { lit("(k)"); end(b, cg22!(class = "k")) } _ => { lit("("); esc(if k { x } else { y }); lit(")"); end(b, cg22!(class = if k { x } else { y })) } } }
    h_21_g023(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(x); lit(";l&lt;"); lit(if k { "1" } else { "2" }); lit(";;"); esc(if k { x } else { y }); lit(";so)"); end(b, cg23!(div = if k { x } else { y }, title = None, r#type = { x }, "l<", if k { 1 } else { 2 })) } 1 => { lit("("); esc(x); lit(";l&lt;"); lit(if k { "1" } else { "2" }); lit(";;"); esc(if k { x } else { y }); lit(";so)"); end(b, cg23({ x }, frag!("l<", if k { 1 } else { 2 }), None, if k { x } else { y }, (Some("so")))) } 2 => { lit("(;"); esc(x); lit("<b>"); esc(y); lit("</b>"); esc(x); lit(";;"); esc(y); lit(";so)"); end(b, cg23!(x, title = None, frag!(), b!(y), div = idf(y), { x })) } _ => { lit("(k;"); esc(x); esc(x); lit(";"); if k { esc(y); } lit(";k;"); if k { esc(y); } lit(")"); end(b, cg23!({ x }, div = "k", name = if k { Some(y) } else { None }, r#type = "k", title = if k { Some(y) } else { None }, { x })) } } }
    h_21_g024(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(k;"); lit_dec(v as u32 / 2); lit(";l&lt;"); lit(if k { "1" } else { "2" }); esc(x); lit("<b>"); esc(y); lit("</b>;{"); esc(y); lit("|dflt})"); end(b, cg24!("l<", div = v / 2, if k { 1 } else { 2 }, name = cmp1!(a = y), x as &str, b!(y), body = "k")) } 1 => { lit("(k;"); lit_dec(v as u32 / 2); lit(";l&lt;"); lit(if k { "1" } else { "2" }); esc(x); lit("<b>"); esc(y); lit("</b>;{"); esc(y); lit("|dflt})"); end(b, cg24("k", v / 2, frag!("l<", if k { 1 } else { 2 }, x as &str, b!(y)), cmp1!(a = y))) } 2 => { lit("("); esc(if k { x } else { y }); lit(";9;;"); esc(x); lit(")"); end(b, cg24!(div = 9, name = x, body = if k { x } else { y })) } _ => { lit("(k;"); lit_dec(v as u32); lit(";"); esc(x); lit(";)"); end(b, cg24!(div = v, body = "k", { x }, name = (), frag!())) } } }
    h_21_g025(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(&lt;;"); lit_dec(v as u32); lit(";true;"); esc(x); lit(";7;true)"); end(b, cg25!(b = true, href = Some(x), aA = '<', id = true, name = v)) } 1 => { lit("(&lt;;"); lit_dec(v as u32); lit(";true;"); esc(x); lit(";7;true)"); end(b, cg25('<', v, true, Some(x), (7), true)) } 2 => { lit("(;9;true;;7;"); lit(if v == 3 { "true" } else { "false" }); lit(")"); end(b, cg25!(aA = (), id = v == 3, href = None, name = 9, b = true)) } _ => { lit("(&lt;;"); lit_dec(v as u32 / 2); lit(";"); lit(if k { "false" } else { "true" }); lit(";;"); lit_dec(v as u32 / 2); lit(";"); lit(if k { "false" } else { "true" }); lit(")"); end(b, cg25!(href = None, name = v / 2, item = v / 2, b = !k, aA = '<', id = !k)) } } }
    h_21_g026(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); lit_dec(v as u32 / 2); lit(";"); lit_dec(v as u32); lit(";"); lit(if v == 3 { "true" } else { "false" }); lit(";"); lit(if k { "false" } else { "true" }); lit(")"); end(b, cg26!(div = v == 3, href = v, value = v / 2, item = !k)) } 1 => { lit("("); lit_dec(v as u32 / 2); lit(";"); lit_dec(v as u32); lit(";"); lit(if v == 3 { "true" } else { "false" }); lit(";"); lit(if k { "false" } else { "true" }); lit(")"); end(b, cg26(v / 2, v, v == 3, !k)) } 2 => { lit("("); lit_dec(v as u32); lit(";"); lit_dec(v as u32); lit(";"); lit(if v == 3 { "true" } else { "false" }); lit(";true)"); end(b, cg26!(item = true, value = v, href = v, div = v == 3)) } _ => { lit("(9;"); lit_dec(v as u32); lit(";"); lit(if k { "false" } else { "true" }); lit(";"); lit(if k { "false" } else { "true" }); lit(")"); end(b, cg26!(div = !k, item = !k, value = 9, href = v)) } } }
    h_21_g027(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); lit(if k { "true" } else { "false" }); lit(";"); esc(x); lit("-1<section>1</section>)"); end(b, cg27!({ x }, -1, c = k, cmp0!(1))) } 1 => { lit("("); lit(if k { "true" } else { "false" }); lit(";"); esc(x); lit("-1<section>1</section>)"); end(b, cg27(k, frag!({ x }, -1, cmp0!(1)))) } 2 => { lit("(true;l&lt;)"); end(b, cg27!("l<", frag!())) } _ => { lit("(true;<br>)"); end(b, cg27!(br!())) } } }
    h_21_g028(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); lit_dec(v as u32); lit(";;5<br>5;"); lit_dec(v as u32); lit(";"); lit(if k { "false" } else { "true" }); lit(";"); esc(y); lit(")"); end(b, cg28!(5, br!(), href = !k, t1 = idf(y), aA = v, 5, title = v)) } 1 => { lit("("); lit_dec(v as u32); lit(";;5<br>5;"); lit_dec(v as u32); lit(";"); lit(if k { "false" } else { "true" }); lit(";"); esc(y); lit(")"); end(b, cg28(v, (None), frag!(5, br!(), 5), v, !k, idf(y))) } 2 => { lit("(9;;<section>1</section>"); esc(x); lit(";9;"); lit(if k { "false" } else { "true" }); lit(";"); esc(if k { x } else { y }); lit(")"); end(b, cg28!(t1 = if k { x } else { y }, cmp0!(1), href = !k, title = 9, x, aA = 9)) } _ => { lit("(7;"); if k { esc(y); } lit(";"); esc(x); lit("5;9;"); lit(if k { "true" } else { "false" }); lit(";"); esc(if k { x } else { y }); lit(")"); end(b, cg28!(x, t1 = if k { x } else { y }, 5, very_long_parameter_name = if k { Some(y) } else { None }, href = k, title = 9)) } } }
    h_21_g029(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); lit(if k { "1" } else { "2" }); esc(x); lit(";;9;true)"); end(b, cg29!(if k { 1 } else { 2 }, x as &str, t1 = 9, index = true)) } 1 => { lit("("); lit(if k { "1" } else { "2" }); esc(x); lit(";;9;true)"); end(b, cg29(frag!(if k { 1 } else { 2 }, x as &str), Default::default(), 9, true)) } 2 => { lit("("); lit(if k { "1" } else { "2" }); esc(x); lit(if k { "1" } else { "2" }); lit(if k { "1" } else { "2" }); lit(";;0;"); lit(if k { "false" } else { "true" }); lit(")"); end(b, cg29!(if k { 1 } else { 2 }, x as &str, if k { 1 } else { 2 }, if k { 1 } else { 2 }, index = !k)) } _ => { lit("(<b>"); esc(y); lit("</b>"); esc(x); lit(";"); esc(x); lit(";0;"); lit(if k { "false" } else { "true" }); lit(")"); end(b, cg29!(b!(y), id = Some(x), index = !k, { x })) } } }
    h_21_g030(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); lit(if k { "true" } else { "false" }); lit(";"); lit_dec(v as u32 / 2); lit(";"); esc(x); lit(")"); end(b, cg30!(t1 = x, href = k, r#type = v / 2)) } 1 => { lit("("); lit(if k { "true" } else { "false" }); lit(";"); lit_dec(v as u32 / 2); lit(";"); esc(x); lit(")"); end(b, cg30(k, v / 2, x)) } 2 => { lit("(true;"); lit_dec(v as u32 / 2); lit(";"); esc(x); lit(")"); end(b, cg30!(t1 = { x }, r#type = v / 2)) } _ => { lit("("); lit(if v == 3 { "true" } else { "false" }); lit(";"); lit_dec(v as u32); lit(";"); esc(y); lit(")"); end(b, cg30!(href = v == 3, t1 = idf(y), r#type = v)) } } }
    h_21_g031(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(y); lit("5)"); end(b, cg31!(idf(y), 5)) } 1 => { lit("("); esc(y); lit("5)"); end(b, cg31(frag!(idf(y), 5))) } 2 => { lit("()"); end(b, cg31!()) } _ => { lit("("); esc(y); lit("<b>"); esc(y); lit("</b>)"); end(b, cg31!(idf(y), b!(y))) } } }
    h_21_g032(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(<section>1</section><b>"); esc(y); lit("</b><b>"); esc(y); lit("</b>;)"); end(b, cg32!(cmp0!(1), b!(y), b!(y))) } 1 => { lit("(<section>1</section><b>"); esc(y); lit("</b><b>"); esc(y); lit("</b>;)"); end(b, cg32(frag!(cmp0!(1), b!(y), b!(y)), (None))) } 2 => { lit("("); esc(x); lit("-1<br>;)"); end(b, cg32!(frag!(), x, -1, br!())) } _ => { lit("("); esc(y); lit(";)"); end(b, cg32!(idf(y))) } } }
    h_21_g033(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(;;)"); end(b, cg33!(body = None)) } 1 => { lit("(;;)"); end(b, cg33(frag!(), None, Default::default())) } 2 => { lit("(;;"); if k { esc(y); } lit(")"); end(b, cg33!(t1 = if k { Some(y) } else { None })) } _ => { lit("("); lit_dec(v as u32); lit("-1"); lit(if v == 3 { "true" } else { "false" }); lit("5;;"); if k { esc(y); } lit(")"); end(b, cg33!(Some(v), t1 = if k { Some(y) } else { None }, -1, v == 3, 5)) } } }
    h_21_g034(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(x); lit(";"); esc(x); lit(";k)"); end(b, cg34!(r#type = x, title = "k", x)) } 1 => { lit("("); esc(x); lit(";"); esc(x); lit(";k)"); end(b, cg34(x, frag!(x), "k")) } 2 => { lit("({"); esc(y); lit("|dflt};"); lit(if k { "1" } else { "2" }); lit("<section>1</section>5"); lit_dec(v as u32); lit(";"); esc(if k { x } else { y }); lit(")"); end(b, cg34!(title = if k { x } else { y }, if k { 1 } else { 2 }, cmp0!(1), r#type = cmp1!(a = y), 5, Some(v))) } _ => { lit("(1"); esc(x); lit(";"); esc(x); lit("<br>;"); esc(y); lit(")"); end(b, cg34!(x, title = y, frag!(), r#type = frag!(1, x), br!())) } } }
    h_21_g035(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(<b>x</b>;"); lit_dec(v as u32 / 2); lit(";;"); if k { esc(y); } lit(";"); lit(if v == 3 { "true" } else { "false" }); lit(";"); lit_dec(v as u32); lit(")"); end(b, cg35!(v == 3, body = if k { Some(y) } else { None }, item = v / 2, class = v)) } 1 => { lit("(<b>x</b>;"); lit_dec(v as u32 / 2); lit(";;"); if k { esc(y); } lit(";"); lit(if v == 3 { "true" } else { "false" }); lit(";"); lit_dec(v as u32); lit(")"); end(b, cg35((b!("x")), v / 2, Default::default(), if k { Some(y) } else { None }, frag!(v == 3), v)) } 2 => { lit("(&lt;;"); lit_dec(v as u32 / 2); lit(";;;55;"); lit_dec(v as u32); lit(")"); end(b, cg35!(5, item = v / 2, body = None, class = v, 5, r#type = '<')) } _ => { lit("(<b>x</b>;"); lit_dec(v as u32); lit(";"); esc(x); lit(";;5<br>"); lit(if v == 3 { "true" } else { "false" }); lit(";"); lit_dec(v as u32); lit(")"); end(b, cg35!(body = None, 5, br!(), t1 = x, v == 3, class = v, item = v)) } } }
    h_21_g036(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(x); lit(";k;"); lit_dec(v as u32); lit(";<section>1</section>"); esc(y); esc(x); lit(";"); esc(x); lit(";"); esc(x); lit(")"); end(b, cg36!(c = Some(x), buffer = "k", cmp0!(1), div = v, idf(y), aA = Some(x), x1 = Some(x), { x })) } 1 => { lit("("); esc(x); lit(";k;"); lit_dec(v as u32); lit(";<section>1</section>"); esc(y); esc(x); lit(";"); esc(x); lit(";"); esc(x); lit(")"); end(b, cg36(Some(x), "k", v, frag!(cmp0!(1), idf(y), { x }), Some(x), Some(x))) } 2 => { lit("("); esc(x); lit(";"); esc(x); lit(";"); lit_dec(v as u32); lit(";<br>5;"); if k { esc(y); } lit(";"); if k { esc(y); } lit(")"); end(b, cg36!(c = Some(x), br!(), div = v, 5, aA = if k { Some(y) } else { None }, buffer = { x }, x1 = if k { Some(y) } else { None })) } _ => { lit("("); if k { esc(y); } lit(";"); esc(y); lit(";5;<br>;"); if k { esc(y); } lit(";)"); end(b, cg36!(c = if k { Some(y) } else { None }, x1 = if k { Some(y) } else { None }, buffer = idf(y), aA = None, br!())) } } }
    h_21_g037(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(x); lit("-1"); esc(x); lit(")"); end(b, cg37!({ x }, -1, x)) } 1 => { lit("("); esc(x); lit("-1"); esc(x); lit(")"); end(b, cg37(frag!({ x }, -1, x))) } 2 => { lit("("); esc(x); esc(y); lit(if v == 3 { "true" } else { "false" }); lit(")"); end(b, cg37!({ x }, idf(y), v == 3)) } _ => { lit("("); esc(x); lit("<b>"); esc(y); lit("</b>-1l&lt;)"); end(b, cg37!(x, b!(y), -1, "l<")) } } }
    h_21_g038(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(9;d&lt;;<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>;"); lit_dec(v as u32); lit(";true;"); esc(x); lit(")"); end(b, cg38!(rest_ = true, href = p!(y, id = v), x1 = v, name = 9, buffer = { x })) } 1 => { lit("(9;d&lt;;<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>;"); lit_dec(v as u32); lit(";true;"); esc(x); lit(")"); end(b, cg38(9, (concat!("d", "<")), p!(y, id = v), v, true, { x })) } 2 => { lit("("); lit_dec(v as u32 / 2); lit(";d&lt;;1"); esc(x); lit(";"); lit_dec(v as u32); lit(";"); lit(if k { "false" } else { "true" }); lit(";"); esc(x); lit(")"); end(b, cg38!(buffer = { x }, rest_ = !k, name = v / 2, href = frag!(1, x), x1 = v)) } _ => { lit("(9;d&lt;;1"); esc(x); lit(";"); lit_dec(v as u32); lit(";"); lit(if k { "false" } else { "true" }); lit(";"); esc(y); lit(")"); end(b, cg38!(x1 = v, name = 9, buffer = idf(y), href = frag!(1, x), rest_ = !k)) } } }
    h_21_g039(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); lit_dec(v as u32); lit(";"); esc(x); lit(")"); end(b, cg39!(id = v, x1 = Some(x))) } 1 => { lit("("); lit_dec(v as u32); lit(";"); esc(x); lit(")"); end(b, cg39(v, Some(x))) } 2 => { lit("("); lit_dec(v as u32); lit(";"); if k { esc(y); } lit(")"); end(b, cg39!(x1 = if k { Some(y) } else { None }, id = v)) } _ => { lit("(7;"); esc(x); lit(")"); end(b, cg39!(x1 = Some(x))) } } }
    h_21_g040(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(-1l&lt;)"); end(b, cg40!(-1, "l<")) } 1 => { lit("(-1l&lt;)"); end(b, cg40(frag!(-1, "l<"))) } 2 => { lit("("); esc(y); esc(y); lit(")"); end(b, cg40!(idf(y), idf(y))) } _ => { lit("(<section>1</section><br>"); lit(if k { "1" } else { "2" }); lit(")"); end(b, cg40!(cmp0!(1), br!(), if k { 1 } else { 2 })) } } }
    h_21_g041(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(<b>x</b>;"); lit(if v == 3 { "true" } else { "false" }); lit(";<br>"); lit_dec(v as u32); esc(y); lit(";false;"); esc(x); lit(";"); esc(y); lit(")"); end(b, cg41!(br!(), Some(v), t1 = { x }, idf(y), r#type = v == 3, href = idf(y))) } 1 => { lit("(<b>x</b>;"); lit(if v == 3 { "true" } else { "false" }); lit(";<br>"); lit_dec(v as u32); esc(y); lit(";false;"); esc(x); lit(";"); esc(y); lit(")"); end(b, cg41((b!("x")), v == 3, frag!(br!(), Some(v), idf(y)), Default::default(), { x }, idf(y))) } 2 => { lit("("); esc(x); lit(";"); lit(if k { "false" } else { "true" }); lit(";"); lit_dec(v as u32); lit("<b>"); esc(y); lit("</b>"); esc(x); lit("<br>;false;"); esc(y); lit(";d5)"); end(b, cg41!(r#type = !k, Some(v), t1 = y, b!(y), x as &str, _hidden = x, br!())) } _ => { lit("(<b>x</b>;false;"); esc(x); lit("-1"); esc(x); lit(";true;"); esc(x); lit(";"); esc(y); lit(")"); end(b, cg41!(name = true, x as &str, -1, href = y, x, t1 = x)) } } }
    h_21_g042(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(;"); esc(x); lit(";k;&lt;;7)"); end(b, cg42!(aA = '<', name = Some(x), a = "k")) } 1 => { lit("(;"); esc(x); lit(";k;&lt;;7)"); end(b, cg42((None), Some(x), "k", '<', (7))) } 2 => { lit("("); esc(x); lit(";so;"); esc(y); lit(";dr;7)"); end(b, cg42!(a = y, value = Some(x))) } _ => { lit("("); if k { esc(y); } lit(";"); esc(x); lit(";"); esc(if k { x } else { y }); lit(";dr;"); lit_dec(v as u32 / 2); lit(")"); end(b, cg42!(name = Some(x), r#type = v / 2, value = if k { Some(y) } else { None }, a = if k { x } else { y })) } } }
    h_21_g043(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); lit(if v == 3 { "true" } else { "false" }); lit(";;"); lit(if k { "false" } else { "true" }); lit(";"); lit_dec(v as u32 / 2); lit(";"); esc(if k { x } else { y }); lit(")"); end(b, cg43!(name = v == 3, r#for = v / 2, _hidden = if k { x } else { y }, id = !k)) } 1 => { lit("("); lit(if v == 3 { "true" } else { "false" }); lit(";;"); lit(if k { "false" } else { "true" }); lit(";"); lit_dec(v as u32 / 2); lit(";"); esc(if k { x } else { y }); lit(")"); end(b, cg43(v == 3, (None), !k, v / 2, if k { x } else { y })) } 2 => { lit("("); lit(if k { "true" } else { "false" }); lit(";;"); lit(if k { "false" } else { "true" }); lit(";9;"); esc(if k { x } else { y }); lit(")"); end(b, cg43!(id = !k, name = k, _hidden = if k { x } else { y }, r#for = 9)) } _ => { lit("(true;"); if k { esc(y); } lit(";"); lit(if v == 3 { "true" } else { "false" }); lit(";0;"); esc(if k { x } else { y }); lit(")"); end(b, cg43!(name = true, _hidden = if k { x } else { y }, href = if k { Some(y) } else { None }, id = v == 3)) } } }
    h_21_g044(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(x); lit(";1"); esc(x); lit(";"); lit_dec(v as u32); lit(";"); lit(if v == 3 { "true" } else { "false" }); esc(x); lit("5<b>"); esc(y); lit("</b>;"); esc(x); lit(";d&lt;)"); end(b, cg44!(v == 3, x, a = v, 5, index = frag!(1, x), t1 = Some(x), b!(y), c = x)) } 1 => { lit("("); esc(x); lit(";1"); esc(x); lit(";"); lit_dec(v as u32); lit(";"); lit(if v == 3 { "true" } else { "false" }); esc(x); lit("5<b>"); esc(y); lit("</b>;"); esc(x); lit(";d&lt;)"); end(b, cg44(x, frag!(1, x), v, frag!(v == 3, x, 5, b!(y)), Some(x), (concat!("d", "<")))) } 2 => { lit("({"); esc(y); lit("|dflt};<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>;0;;;"); esc(y); lit(")"); end(b, cg44!(index = p!(y, id = v), c = cmp1!(a = y), t1 = None, buffer = idf(y))) } _ => { lit("(&lt;;&lt;;9;l&lt;<b>"); esc(y); lit("</b>;"); esc(x); lit(";"); esc(x); lit(")"); end(b, cg44!(c = '<', t1 = Some(x), frag!(), buffer = { x }, "l<", b!(y), a = 9, index = '<')) } } }
    h_21_g045(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("()"); end(b, cg45!()) } 1 => { lit("()"); end(b, cg45(Default::default())) } 2 => { lit("("); esc(if k { x } else { y }); lit(")"); end(b, cg45!(r#for = if k { x } else { y })) } _ => { lit("("); esc(y); lit(")"); end(b, cg45!(r#for = idf(y))) } } }
    h_21_g046(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(;"); esc(x); lit("5l&lt;)"); end(b, cg46!(x as &str, 5, "l<")) } 1 => { lit("(;"); esc(x); lit("5l&lt;)"); end(b, cg46(Default::default(), frag!(x as &str, 5, "l<"))) } 2 => { lit("("); esc(x); lit(";"); esc(x); lit("l&lt;"); esc(x); esc(y); lit(")"); end(b, cg46!(x as &str, "l<", x as &str, a = Some(x), idf(y))) } _ => { lit("(;"); lit(if k { "1" } else { "2" }); esc(y); lit(")"); end(b, cg46!(if k { 1 } else { 2 }, idf(y), frag!())) } } }
    h_21_g047(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(x); lit(";"); lit_dec(v as u32); lit(";"); if k { esc(y); } lit(";"); lit(if v == 3 { "true" } else { "false" }); lit(")"); end(b, cg47!(c = if k { Some(y) } else { None }, r#type = v, id = v == 3, a = x)) } 1 => { lit("("); esc(x); lit(";"); lit_dec(v as u32); lit(";"); if k { esc(y); } lit(";"); lit(if v == 3 { "true" } else { "false" }); lit(")"); end(b, cg47(x, v, if k { Some(y) } else { None }, v == 3)) } 2 => { lit("(<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>;"); lit_dec(v as u32 / 2); lit(";;"); lit(if k { "false" } else { "true" }); lit(")"); end(b, cg47!(a = p!(y, id = v), r#type = v / 2, id = !k)) } _ => { lit("(&lt;;"); lit_dec(v as u32); lit(";;true)"); end(b, cg47!(id = true, r#type = v, c = None, a = '<')) } } }
    h_21_g048(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(d0)"); end(b, cg48!()) } 1 => { lit("(d0)"); end(b, cg48(("d0"))) } 2 => { lit("("); esc(x); lit(")"); end(b, cg48!(very_long_parameter_name = { x })) } _ => { lit("(d0)"); end(b, cg48!()) } } }
    h_21_g049(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(<b>"); esc(y); lit("</b>"); lit_dec(v as u32); lit_dec(v as u32); lit(if k { "1" } else { "2" }); lit(";true;"); lit_dec(v as u32 / 2); lit(")"); end(b, cg49!(b!(y), Some(v), rest_ = v / 2, Some(v), if k { 1 } else { 2 })) } 1 => { lit("(<b>"); esc(y); lit("</b>"); lit_dec(v as u32); lit_dec(v as u32); lit(if k { "1" } else { "2" }); lit(";true;"); lit_dec(v as u32 / 2); lit(")"); end(b, cg49(frag!(b!(y), Some(v), Some(v), if k { 1 } else { 2 }), (true), v / 2)) } 2 => { lit("(5-1;true;"); lit_dec(v as u32 / 2); lit(")"); end(b, cg49!(5, very_long_parameter_name = true, rest_ = v / 2, -1)) } _ => { lit("(;true;"); lit_dec(v as u32); lit(")"); end(b, cg49!(rest_ = v)) } } }
    h_21_g050(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(x); lit(";9;<b>"); esc(y); lit("</b>"); esc(x); esc(x); esc(x); lit(")"); end(b, cg50!(b!(y), very_long_parameter_name = Some(x), { x }, x as &str, body = 9, x)) } 1 => { lit("("); esc(x); lit(";9;<b>"); esc(y); lit("</b>"); esc(x); esc(x); esc(x); lit(")"); end(b, cg50(Some(x), 9, frag!(b!(y), { x }, x as &str, x))) } 2 => { lit("("); esc(x); lit(";4;5"); lit(if v == 3 { "true" } else { "false" }); esc(x); lit(")"); end(b, cg50!(5, v == 3, x as &str, frag!(), very_long_parameter_name = Some(x))) } _ => { lit("(;"); lit_dec(v as u32 / 2); lit(";<br>"); esc(x); lit(")"); end(b, cg50!(br!(), x, body = v / 2)) } } }
    h_21_g051(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(y); lit(";1"); esc(x); lit(";"); lit_dec(v as u32); lit(";"); lit(if k { "true" } else { "false" }); lit(")"); end(b, cg51!(buffer = v, name = y, class = k, b = frag!(1, x))) } 1 => { lit("("); esc(y); lit(";1"); esc(x); lit(";"); lit_dec(v as u32); lit(";"); lit(if k { "true" } else { "false" }); lit(")"); end(b, cg51(y, frag!(1, x), v, k)) } 2 => { lit("("); esc(x); lit(";;"); lit_dec(v as u32 / 2); lit(";"); lit(if k { "false" } else { "true" }); lit(")"); end(b, cg51!(name = x, class = !k, buffer = v / 2)) } _ => { lit("("); esc(y); lit(";"); esc(x); lit(";9;"); lit(if k { "false" } else { "true" }); lit(")"); end(b, cg51!(class = !k, name = idf(y), buffer = 9, b = x)) } } }
    h_21_g052(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(l&lt;;"); lit_dec(v as u32 / 2); lit(";9;true;7)"); end(b, cg52!(children = v / 2, title = true, "l<", very_long_parameter_name = 9)) } 1 => { lit("(l&lt;;"); lit_dec(v as u32 / 2); lit(";9;true;7)"); end(b, cg52(frag!("l<"), v / 2, 9, true, (7))) } 2 => { lit("("); esc(x); esc(y); lit_dec(v as u32); lit(";"); lit_dec(v as u32); lit(";9;true;"); lit_dec(v as u32 / 2); lit(")"); end(b, cg52!(children = v, { x }, very_long_parameter_name = 9, idf(y), x1 = v / 2, Some(v))) } _ => { lit("(5"); esc(x); lit_dec(v as u32); lit(";"); lit_dec(v as u32); lit(";9;"); lit(if k { "true" } else { "false" }); lit(";9)"); end(b, cg52!(5, x, Some(v), children = v, x1 = 9, title = k, very_long_parameter_name = 9)) } } }
    h_21_g053(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("()"); end(b, cg53!()) } 1 => { lit("()"); end(b, cg53(frag!())) } 2 => { lit("()"); end(b, cg53!()) } _ => { lit("("); esc(y); lit(if v == 3 { "true" } else { "false" }); lit("<br>)"); end(b, cg53!(idf(y), v == 3, br!())) } } }
    h_21_g054(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(x); lit(";k;{"); esc(y); lit("|dflt};)"); end(b, cg54!(r#for = { x }, div = cmp1!(a = y), rest_ = "k")) } 1 => { lit("("); esc(x); lit(";k;{"); esc(y); lit("|dflt};)"); end(b, cg54({ x }, "k", cmp1!(a = y), frag!())) } 2 => { lit("("); esc(x); lit(";d&lt;;"); esc(x); lit(";"); esc(x); lit("<br>)"); end(b, cg54!(x, div = x, r#for = x, br!())) } _ => { lit("("); esc(y); lit(";"); esc(y); lit(";"); esc(x); lit(";l&lt;"); esc(x); esc(x); lit(")"); end(b, cg54!(rest_ = y, r#for = y, "l<", x, div = x, x)) } } }
    h_21_g055(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); lit_dec(v as u32); lit(";"); esc(if k { x } else { y }); lit(";true;)"); end(b, cg55!(r#type = v, r#for = if k { x } else { y })) } 1 => { lit("("); lit_dec(v as u32); lit(";"); esc(if k { x } else { y }); lit(";true;)"); end(b, cg55(v, if k { x } else { y }, (true), frag!())) } 2 => { lit("(9;"); esc(y); lit(";true;"); lit(if k { "1" } else { "2" }); lit(")"); end(b, cg55!(r#for = idf(y), r#type = 9, if k { 1 } else { 2 })) } _ => { lit("(0;"); esc(x); lit(";true;-1"); lit(if v == 3 { "true" } else { "false" }); lit(")"); end(b, cg55!(r#for = x, -1, v == 3, title = true)) } } }
    h_21_g056(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); lit_dec(v as u32 / 2); lit(";d&lt;;"); lit_dec(v as u32 / 2); lit(";;l&lt;)"); end(b, cg56!(title = v / 2, "l<", b = (), children = v / 2)) } 1 => { lit("("); lit_dec(v as u32 / 2); lit(";d&lt;;"); lit_dec(v as u32 / 2); lit(";;l&lt;)"); end(b, cg56(v / 2, (concat!("d", "<")), v / 2, (), frag!("l<"))) } 2 => { lit("("); lit_dec(v as u32 / 2); lit(";d&lt;;"); lit_dec(v as u32 / 2); lit(";1"); esc(x); lit(";<b>"); esc(y); lit("</b><b>"); esc(y); lit("</b>"); lit_dec(v as u32); lit(")"); end(b, cg56!(frag!(), b = frag!(1, x), b!(y), title = v / 2, b!(y), Some(v), children = v / 2)) } _ => { lit("("); lit_dec(v as u32 / 2); lit(";"); esc(if k { x } else { y }); lit(";"); lit_dec(v as u32 / 2); lit(";;)"); end(b, cg56!(title = v / 2, children = v / 2, rest_ = if k { x } else { y })) } } }
    h_21_g057(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); lit(if k { "true" } else { "false" }); lit(";;"); esc(x); lit(")"); end(b, cg57!(c = k, href = x, name = None)) } 1 => { lit("("); lit(if k { "true" } else { "false" }); lit(";;"); esc(x); lit(")"); end(b, cg57(k, None, x)) } 2 => { lit("("); lit(if v == 3 { "true" } else { "false" }); lit(";;dr)"); end(b, cg57!(c = v == 3, name = None)) } _ => { lit("("); lit(if k { "true" } else { "false" }); lit(";;dr)"); end(b, cg57!(name = None, c = k)) } } }
    h_21_g058(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); lit_dec(v as u32); lit("<section>1</section><b>"); esc(y); lit("</b><br>;;k;"); lit_dec(v as u32 / 2); lit(";4;"); esc(x); lit(")"); end(b, cg58!(r#type = x, Some(v), href = "k", cmp0!(1), b!(y), br!(), b = v / 2)) } 1 => { lit("("); lit_dec(v as u32); lit("<section>1</section><b>"); esc(y); lit("</b><br>;;k;"); lit_dec(v as u32 / 2); lit(";4;"); esc(x); lit(")"); end(b, cg58(frag!(Some(v), cmp0!(1), b!(y), br!()), Default::default(), "k", v / 2, ({ let q = 4; q }), x)) } 2 => { lit("("); lit(if k { "1" } else { "2" }); lit("l&lt;;;"); esc(x); lit(";"); lit_dec(v as u32 / 2); lit(";<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>;1"); esc(x); lit(")"); end(b, cg58!(if k { 1 } else { 2 }, href = x, b = v / 2, r#type = frag!(1, x), "l<", name = p!(y, id = v))) } _ => { lit("("); esc(x); lit(";"); esc(x); lit(";"); esc(if k { x } else { y }); lit(";"); lit_dec(v as u32 / 2); lit(";4;1"); esc(x); lit(")"); end(b, cg58!(b = v / 2, r#type = frag!(1, x), href = if k { x } else { y }, class = Some(x), x)) } } }
    h_21_g059(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(3;"); esc(y); lit(";"); esc(if k { x } else { y }); lit(";&lt;;<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>)"); end(b, cg59!(name = p!(y, id = v), _hidden = '<', r#type = y, title = if k { x } else { y })) } 1 => { lit("(3;"); esc(y); lit(";"); esc(if k { x } else { y }); lit(";&lt;;<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>)"); end(b, cg59((3), y, if k { x } else { y }, '<', p!(y, id = v))) } 2 => { lit("(3;"); esc(y); lit(";"); esc(y); lit(";"); esc(x); lit(";)"); end(b, cg59!(_hidden = x, r#type = idf(y), name = (), title = y)) } _ => { lit("("); lit_dec(v as u32); lit(";"); esc(y); lit(";"); esc(y); lit(";<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>;{"); esc(y); lit("|dflt})"); end(b, cg59!(t1 = v, name = cmp1!(a = y), r#type = idf(y), title = idf(y), _hidden = p!(y, id = v))) } } }
    h_21_g060(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(9;"); lit(if k { "false" } else { "true" }); lit(";so)"); end(b, cg60!(href = 9, t1 = !k)) } 1 => { lit("(9;"); lit(if k { "false" } else { "true" }); lit(";so)"); end(b, cg60(9, !k, (Some("so")))) } 2 => { lit("("); lit_dec(v as u32); lit(";"); lit(if k { "false" } else { "true" }); lit(";"); esc(x); lit(")"); end(b, cg60!(t1 = !k, buffer = Some(x), href = v)) } _ => { lit("(7;"); lit(if v == 3 { "true" } else { "false" }); lit(";so)"); end(b, cg60!(t1 = v == 3)) } } }
    h_21_g061(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(y); lit(";<b>"); esc(y); lit("</b>;true;dr)"); end(b, cg61!(class = y, b!(y))) } 1 => { lit("("); esc(y); lit(";<b>"); esc(y); lit("</b>;true;dr)"); end(b, cg61(y, frag!(b!(y)), (!false && 1 < 2), ("dr"))) } 2 => { lit("("); esc(x); lit(";;true;dr)"); end(b, cg61!(class = x, c = true)) } _ => { lit("("); esc(y); lit(";"); esc(x); esc(y); lit(if k { "1" } else { "2" }); lit(";true;dr)"); end(b, cg61!(class = y, x as &str, idf(y), if k { 1 } else { 2 })) } } }
    h_21_g062(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(<section>1</section><section>1</section>)"); end(b, cg62!(cmp0!(1), cmp0!(1))) } 1 => { lit("(<section>1</section><section>1</section>)"); end(b, cg62(frag!(cmp0!(1), cmp0!(1)))) } 2 => { lit("(l&lt;)"); end(b, cg62!("l<")) } _ => { lit("("); esc(x); lit_dec(v as u32); lit(")"); end(b, cg62!(x as &str, Some(v))) } } }
    h_21_g063(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); lit(if k { "false" } else { "true" }); lit(";"); esc(x); lit(";"); if k { esc(y); } lit(";"); lit_dec(v as u32 / 2); lit(")"); end(b, cg63!(item = Some(x), c = v / 2, x1 = if k { Some(y) } else { None }, b = !k)) } 1 => { lit("("); lit(if k { "false" } else { "true" }); lit(";"); esc(x); lit(";"); if k { esc(y); } lit(";"); lit_dec(v as u32 / 2); lit(")"); end(b, cg63(!k, Some(x), if k { Some(y) } else { None }, v / 2)) } 2 => { lit("(false;;"); esc(x); lit(";"); lit_dec(v as u32 / 2); lit(")"); end(b, cg63!(c = v / 2, x1 = Some(x), item = None)) } _ => { lit("("); lit(if v == 3 { "true" } else { "false" }); lit(";"); if k { esc(y); } lit(";"); if k { esc(y); } lit(";7)"); end(b, cg63!(item = if k { Some(y) } else { None }, x1 = if k { Some(y) } else { None }, b = v == 3)) } } }
    h_21_g064(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(y); lit(";-1;"); lit_dec(v as u32); lit(";true)"); end(b, cg64!(item = v, very_long_parameter_name = idf(y), -1, _hidden = true, frag!())) } 1 => { lit("("); esc(y); lit(";-1;"); lit_dec(v as u32); lit(";true)"); end(b, cg64(idf(y), frag!(-1, frag!()), v, true)) } 2 => { lit("("); esc(x); lit(";"); lit(if v == 3 { "true" } else { "false" }); lit(if k { "1" } else { "2" }); esc(x); lit(";"); lit_dec(v as u32 / 2); lit(";"); lit(if k { "true" } else { "false" }); lit(")"); end(b, cg64!(very_long_parameter_name = x, v == 3, _hidden = k, item = v / 2, if k { 1 } else { 2 }, { x })) } _ => { lit("(;<b>"); esc(y); lit("</b>;"); lit_dec(v as u32 / 2); lit(";true)"); end(b, cg64!(frag!(), item = v / 2, b!(y))) } } }
    h_21_g065(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(3;"); lit_dec(v as u32 / 2); lit(";"); lit_dec(v as u32 / 2); lit(";<b>x</b>)"); end(b, cg65!(_hidden = v / 2, x1 = v / 2)) } 1 => { lit("(3;"); lit_dec(v as u32 / 2); lit(";"); lit_dec(v as u32 / 2); lit(";<b>x</b>)"); end(b, cg65((3), v / 2, v / 2, (b!("x")))) } 2 => { lit("(3;"); lit_dec(v as u32 / 2); lit(";9;1"); esc(x); lit(")"); end(b, cg65!(x1 = v / 2, name = frag!(1, x), _hidden = 9)) } _ => { lit("("); lit_dec(v as u32); lit(";"); lit_dec(v as u32 / 2); lit(";"); lit_dec(v as u32 / 2); lit(";<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>)"); end(b, cg65!(c = v, _hidden = v / 2, name = p!(y, id = v), x1 = v / 2)) } } }
    h_21_g066(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); if k { esc(y); } lit(";true;"); lit_dec(v as u32); lit(";"); lit_dec(v as u32); lit(";)"); end(b, cg66!(class = None, _hidden = v, c = if k { Some(y) } else { None }, name = true, Some(v))) } 1 => { lit("("); if k { esc(y); } lit(";true;"); lit_dec(v as u32); lit(";"); lit_dec(v as u32); lit(";)"); end(b, cg66(if k { Some(y) } else { None }, true, v, frag!(Some(v)), None)) } 2 => { lit("("); if k { esc(y); } lit(";"); lit(if k { "true" } else { "false" }); lit(";"); lit_dec(v as u32); lit(";;)"); end(b, cg66!(c = if k { Some(y) } else { None }, name = k, _hidden = v)) } _ => { lit("("); esc(x); lit(";"); lit(if k { "true" } else { "false" }); lit(";"); lit_dec(v as u32); lit(";<br>"); esc(y); esc(y); lit(";)"); end(b, cg66!(br!(), _hidden = v, name = k, c = Some(x), idf(y), idf(y))) } } }
    h_21_g067(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); lit_dec(v as u32); lit(";;"); esc(x); lit(";<b>x</b>;9;true)"); end(b, cg67!(b = x, buffer = v, div = 9, aA = None, a = true)) } 1 => { lit("("); lit_dec(v as u32); lit(";;"); esc(x); lit(";<b>x</b>;9;true)"); end(b, cg67(v, None, x, (b!("x")), 9, true)) } 2 => { lit("(9;"); if k { esc(y); } lit(";"); esc(x); lit(";&lt;;"); lit_dec(v as u32); lit(";"); lit(if k { "false" } else { "true" }); lit(")"); end(b, cg67!(r#type = '<', aA = if k { Some(y) } else { None }, buffer = 9, div = v, b = x, a = !k)) } _ => { lit("("); lit_dec(v as u32 / 2); lit(";;"); esc(x); lit(";&lt;;0;"); lit(if v == 3 { "true" } else { "false" }); lit(")"); end(b, cg67!(a = v == 3, buffer = v / 2, aA = None, r#type = '<', b = { x })) } } }
    h_21_g068(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(1"); esc(x); lit(")"); end(b, cg68!(rest_ = frag!(1, x))) } 1 => { lit("(1"); esc(x); lit(")"); end(b, cg68(frag!(1, x))) } 2 => { lit("("); esc(x); lit(")"); end(b, cg68!(rest_ = x)) } _ => { lit("({"); esc(y); lit("|dflt})"); end(b, cg68!(rest_ = cmp1!(a = y))) } } }
    h_21_g069(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(<br>-1<br>;)"); end(b, cg69!(br!(), -1, frag!(), br!())) } 1 => { lit("(<br>-1<br>;)"); end(b, cg69(frag!(br!(), -1, frag!(), br!()), (None))) } 2 => { lit("(<section>1</section>"); esc(x); lit(";)"); end(b, cg69!(cmp0!(1), x)) } _ => { lit("(;"); esc(x); lit(")"); end(b, cg69!(a = Some(x))) } } }
    h_21_g070(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(false;;9;&lt;)"); end(b, cg70!(a = None, x1 = '<', r#type = 9)) } 1 => { lit("(false;;9;&lt;)"); end(b, cg70(Default::default(), None, 9, '<')) } 2 => { lit("("); lit(if k { "false" } else { "true" }); lit(";;9;&lt;)"); end(b, cg70!(x1 = '<', r#type = 9, rest_ = !k, a = None)) } _ => { lit("(false;"); esc(x); lit(";9;)"); end(b, cg70!(r#type = 9, x1 = (), a = Some(x))) } } }
    h_21_g071(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(;"); lit(if v == 3 { "true" } else { "false" }); lit(")"); end(b, cg71!(very_long_parameter_name = v == 3)) } 1 => { lit("(;"); lit(if v == 3 { "true" } else { "false" }); lit(")"); end(b, cg71(Default::default(), v == 3)) } 2 => { lit("("); esc(if k { x } else { y }); lit(";"); lit(if k { "true" } else { "false" }); lit(")"); end(b, cg71!(title = if k { x } else { y }, very_long_parameter_name = k)) } _ => { lit("("); esc(if k { x } else { y }); lit(";true)"); end(b, cg71!(title = if k { x } else { y })) } } }
    h_21_g072(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(so;9)"); end(b, cg72!(div = 9)) } 1 => { lit("(so;9)"); end(b, cg72((Some("so")), 9)) } 2 => { lit("("); if k { esc(y); } lit(";"); lit_dec(v as u32); lit(")"); end(b, cg72!(item = if k { Some(y) } else { None }, div = v)) } _ => { lit("(so;9)"); end(b, cg72!(div = 9)) } } }
    h_21_g073(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(x); lit(")"); end(b, cg73!(buffer = x)) } 1 => { lit("("); esc(x); lit(")"); end(b, cg73(x)) } 2 => { lit("("); esc(if k { x } else { y }); lit(")"); end(b, cg73!(buffer = if k { x } else { y })) } _ => { lit("("); esc(x); lit(")"); end(b, cg73!(buffer = { x })) } } }
    h_21_g074(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(y); esc(x); lit("-1;)"); end(b, cg74!(frag!(), idf(y), x1 = None, x, -1)) } 1 => { lit("("); esc(y); esc(x); lit("-1;)"); end(b, cg74(frag!(frag!(), idf(y), x, -1), None)) } 2 => { lit("(;)"); end(b, cg74!(x1 = None)) } _ => { lit("("); lit(if k { "1" } else { "2" }); esc(y); lit("l&lt;"); lit(if k { "1" } else { "2" }); lit(";)"); end(b, cg74!(if k { 1 } else { 2 }, idf(y), x1 = None, "l<", if k { 1 } else { 2 })) } } }
    h_21_g075(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); lit(if v == 3 { "true" } else { "false" }); lit(";<br>;"); lit(if k { "true" } else { "false" }); lit(";;"); esc(x); lit(")"); end(b, cg75!(body = k, id = x, br!(), name = v == 3)) } 1 => { lit("("); lit(if v == 3 { "true" } else { "false" }); lit(";<br>;"); lit(if k { "true" } else { "false" }); lit(";;"); esc(x); lit(")"); end(b, cg75(v == 3, frag!(br!()), k, (None), x)) } 2 => { lit("("); lit(if k { "true" } else { "false" }); lit(";<b>"); esc(y); lit("</b>"); lit(if k { "1" } else { "2" }); lit(";true;;4)"); end(b, cg75!(b!(y), name = k, if k { 1 } else { 2 })) } _ => { lit("(true;;true;;{"); esc(y); lit("|dflt})"); end(b, cg75!(c = None, id = cmp1!(a = y))) } } }
    h_21_g076(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(y); esc(x); lit("<section>1</section>"); lit(if k { "1" } else { "2" }); lit(")"); end(b, cg76!(idf(y), { x }, cmp0!(1), if k { 1 } else { 2 })) } 1 => { lit("("); esc(y); esc(x); lit("<section>1</section>"); lit(if k { "1" } else { "2" }); lit(")"); end(b, cg76(frag!(idf(y), { x }, cmp0!(1), if k { 1 } else { 2 }))) } 2 => { lit("(<br>"); esc(y); lit(")"); end(b, cg76!(br!(), idf(y))) } _ => { lit("("); esc(x); lit("<br>-1"); lit_dec(v as u32); lit(")"); end(b, cg76!(x, br!(), -1, Some(v))) } } }
    h_21_g077(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("("); esc(y); lit(";true;9;"); lit(if k { "true" } else { "false" }); lit(";7)"); end(b, cg77!(body = k, children = 9, c = idf(y), a = true)) } 1 => { lit("("); esc(y); lit(";true;9;"); lit(if k { "true" } else { "false" }); lit(";7)"); end(b, cg77(idf(y), true, 9, k, (1 + 2 * 3))) } 2 => { lit("(k;true;9;"); lit(if k { "true" } else { "false" }); lit(";"); lit_dec(v as u32 / 2); lit(")"); end(b, cg77!(rest_ = v / 2, c = "k", body = k, children = 9)) } _ => { lit("("); esc(y); lit(";true;"); lit_dec(v as u32); lit(";"); lit(if k { "false" } else { "true" }); lit(";"); lit_dec(v as u32 / 2); lit(")"); end(b, cg77!(body = !k, rest_ = v / 2, c = idf(y), children = v)) } } }
    h_21_g078(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(9;"); lit_dec(v as u32); lit(";)"); end(b, cg78!(value = v, class = None, name = 9)) } 1 => { lit("(9;"); lit_dec(v as u32); lit(";)"); end(b, cg78(9, v, None)) } 2 => { lit("("); lit_dec(v as u32 / 2); lit(";9;)"); end(b, cg78!(name = v / 2, value = 9, class = None)) } _ => { lit("("); lit_dec(v as u32 / 2); lit(";0;"); esc(x); lit(")"); end(b, cg78!(class = Some(x), name = v / 2)) } } }
    h_21_g079(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(4) { 0 => { lit("(;"); lit_dec(v as u32 / 2); lit(";1"); esc(x); lit(")"); end(b, cg79!(div = v / 2, c = frag!(1, x))) } 1 => { lit("(;"); lit_dec(v as u32 / 2); lit(";1"); esc(x); lit(")"); end(b, cg79((None), v / 2, frag!(1, x))) } 2 => { lit("(;9;<p id=\""); lit_dec(v as u32); lit("\">"); esc(y); lit("</p>)"); end(b, cg79!(c = p!(y, id = v), div = 9)) } _ => { lit("(;9;&lt;)"); end(b, cg79!(div = 9, c = '<')) } } }
}
