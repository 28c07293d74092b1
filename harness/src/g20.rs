//! conditional fragments of every form (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{string::String, format, vec, vec::Vec};
fn idf<T>(v: T) -> T { v }
fn idb(v: bool) -> bool { v }
unsafe fn idu<T>(v: T) -> T { v }
struct S0s { f: &'static str }
static S0: S0s = S0s { f: "f0" };
impl S0s { fn m<T>(&self, v: T) -> T { v } }
struct P0<A, B> { a: A, b: B }
struct W0<T>(T);
impl<T: Render> Render for W0<T> { fn render(self, buffer: &mut Buffer) { self.0.render(buffer) } }
const K7: u8 = 7;
mod mk { pub const SEV: u8 = 7; }
const NM: [&str; 2] = ["n0", "n1"];
fn nm(s: &'static str) -> &'static str { s }
#[allow(non_upper_case_globals)] const id0: &str = "data-id0";
macro_rules! idm { ($e:expr) => { $e } }
macro_rules! const0 { ($e:expr) => {{ const C0: &str = $e; C0 }} }
#[laby] fn cmp0(#[rest] r: impl Render) -> impl Render { section!(r) }
#[laby] fn cmp1(a: impl Render, #[default("dflt")] b: impl Render) -> impl Render { frag!("{", a, "|", b, "}") }
#[laby] fn cmp2(title: impl Render, #[rest] body: impl Render) -> impl Render { frag!(h1!(title), body) }
case! {
    h_20_g000(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 77 { esc(x); } else if !l { esc(x); } else if l { lit("&lt;3"); } else { lit("{9|dflt}"); } lit("</p>"); end(b, p!(frag_match!(if v == 77 { (x, 1).0 } else if matches!(o, None) { x } else if l { format!("<{}", 3) } else { cmp1!(a = 9) }))) }
    h_20_g001(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if k || l { lit("&lt;1"); }   end(b, frag_match!(if k || l { format!("<{}", 1) } )) }
    h_20_g002(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 77 { esc(x); } else if v == 77 { lit("o2"); } else { lit("10"); } lit("</p>"); end(b, p!(frag_match!(if v == 77 { x } else if v == 77 { String::from("o2") } else { { let q = 9; q + 1 } }))) }
    h_20_g003(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if l { lit("&lt;1"); } else if l { if k { lit("2"); } else { lit("0"); } } else if v == 3 && k { if k { lit("3"); } else { lit("0"); } } else if false { esc(x); } else { lit("&lt;9"); } lit("\"></p>"); end(b, p!(a = frag_match!(if o.is_some() { format!("<{}", 1) } else if idf(l) { if k { 2 } else { 0 } } else if let (3, true) = w { if k { 3 } else { 0 } } else if x.is_empty() { x } else { format!("<{}", 9) }))) }
    h_20_g004(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if let Some(s) = o { lit("<i>"); esc(s); lit("</i>"); }  lit(" z"); end(b, classes!(frag_match!(if let Some(s) = o { i!(s) } ), "z")) }
    h_20_g005(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if v < 10 { lit("<b>1"); esc(x); lit("</b>"); } else if v & 1 == 1 { lit("<2>"); }  lit("\"></p>"); end(b, p!(a = frag_match!(if v < 10 { b!(1, x) } else if { v & 1 == 1 } { raw!("<2>") } ))) }
    h_20_g006(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if let Some(s) = o { lit("<i>"); esc(s); lit("</i>"); } else if !k { esc(x); } else if l { if k { lit("3"); } else { lit("0"); } }  lit("</p>"); end(b, p!(frag_match!(if let Some(s) = o { i!(s) } else if !k { (x, 1).0 } else if l { if k { 3 } else { 0 } } ))) }
    h_20_g007(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if l { lit("a 1"); } else { lit("<b>9"); esc(x); lit("</b>"); } lit(" z"); end(b, classes!(frag_match!(if o.is_some() { classes!("a", 1) } else { b!(9, x) }), "z")) }
    h_20_g008(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 3 && k {  } else if l { lit("<2>"); } else if v > 100 && l { esc(x); } else { lit("-9"); } lit("</p>"); end(b, p!(frag_match!(if let (3, true) = w { () } else if o.is_some() { raw!("<2>") } else if v > 100 && l { { x } } else { -9 }))) }
    h_20_g009(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if false { esc(x); } else if false { if k { lit("2"); } else { lit("n"); } } else { if k { lit("9"); } else { lit("0"); } } lit(" z"); end(b, classes!(frag_match!(if let Some("never") = o { x } else if x.is_empty() { frag_match!(if k { 2 } else { "n" }) } else { if k { 9 } else { 0 } }), "z")) }
    h_20_g010(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v & 1 == 1 { esc(x); } else if v & 1 == 1 { lit("<br>"); } else if k { esc(x); } else if l { esc(x); }  lit("</p>"); end(b, p!(frag_match!(if { v & 1 == 1 } { (x, 1).0 } else if { v & 1 == 1 } { br!() } else if k { (x, 1).0 } else if idf(l) { idf(x) } ))) }
    h_20_g011(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if l { if k { lit("1"); } else { lit("n"); } } else if v & 1 == 1 {  } else { lit("9"); } lit("\"></p>"); end(b, p!(a = frag_match!(if idf(l) { frag_match!(if k { 1 } else { "n" }) } else if { v & 1 == 1 } { () } else { 9 }))) }
    h_20_g012(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if v & 1 == 1 { lit("1"); }  lit("\"></p>"); end(b, p!(a = frag_match!(if { v & 1 == 1 } { 1 as u64 } ))) }
    h_20_g013(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v & 1 == 1 { lit("2"); } else if false { lit("<2>"); } else if v < 10 { lit("&lt;3"); }   end(b, frag_match!(if { v & 1 == 1 } { { let q = 1; q + 1 } } else if let Some("never") = o { raw!("<2>") } else if v < 10 { format!("<{}", 3) } )) }
    h_20_g014(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if !l { if k { lit("1"); } else { lit("0"); } } else if k { lit("o2"); } else if v == 3 && k { lit("c"); } else if v & 1 == 1 { lit("4"); } else { lit("o9"); } lit("</p>"); end(b, p!(frag_match!(if matches!(o, None) { if k { 1 } else { 0 } } else if k { String::from("o2") } else if let (3, true) = w { 'c' } else if { v & 1 == 1 } { Some(4) } else { String::from("o9") }))) }
    h_20_g015(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if false { esc(y); lit("1"); } else if v < 10 { lit("&lt;2"); } else if let Some(s) = o { lit("<i>"); esc(s); lit("</i>"); } else if v < 10 { lit("5"); } else { lit("a 9"); }  end(b, frag_match!(if x.is_empty() { frag!(y, "1") } else if let 0..=9 = v { format!("<{}", 2) } else if let Some(s) = o { i!(s) } else if let 0..=9 = v { { let q = 4; q + 1 } } else { classes!("a", 9) })) }
    h_20_g016(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if false { if k { lit("1"); } else { lit("0"); } }  lit("\"></p>"); end(b, p!(a = frag_match!(if let Some("never") = o { if k { 1 } else { 0 } } ))) }
    h_20_g017(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if l { lit("s1"); } else if !l {  } else if false { lit("o3"); } else if v == 3 && k { esc(x); } else { lit("a 9"); } lit("\"></p>"); end(b, p!(a = frag_match!(if l { "s1" } else if matches!(o, None) { () } else if let Some("never") = o { String::from("o3") } else if let (3, true) = w { { x } } else { classes!("a", 9) }))) }
    h_20_g018(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if !k { lit("1"); } else if !l { lit("2,0"); } else if l { lit("-3"); } else if true { lit("a 4"); } else { lit("<br>"); }  end(b, frag_match!(if !k { 1 as u64 } else if matches!(o, None) { iter!(",", [2, 0]) } else if o.is_some() { -3 } else if true { classes!("a", 4) } else { br!() })) }
    h_20_g019(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if k || l { lit("<1>"); } else if k { esc(x); } else if let Some(s) = o { lit("<i>"); esc(s); lit("</i>"); } else if !l { esc(y); lit("4"); } else { lit("<b>9"); esc(x); lit("</b>"); } lit("\"></p>"); end(b, p!(a = frag_match!(if k || l { raw!("<1>") } else if k { { x } } else if let Some(s) = o { i!(s) } else if matches!(o, None) { frag!(y, "4") } else { b!(9, x) }))) }
    h_20_g020(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if false { lit(if k { "false" } else { "true" }); } else if k { esc(x); } else if v < 10 { lit("3"); } else { lit("&lt;9"); } lit(" z"); end(b, classes!(frag_match!(if let Some("never") = o { !k } else if k { (x, 1).0 } else if v < 10 { 3 } else { format!("<{}", 9) }), "z")) }
    h_20_g021(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if false { lit("<br>"); } else if v & 1 == 1 { lit("2,0"); } else if false { lit("{3|dflt}"); } else if l { lit("&lt;4"); } else if let Some(s) = o { lit("<i>"); esc(s); lit("</i>"); }   end(b, frag_match!(if x.is_empty() { br!() } else if { v & 1 == 1 } { iter!(",", [2, 0]) } else if x.is_empty() { cmp1!(a = 3) } else if l { format!("<{}", 4) } else if let Some(s) = o { i!(s) } )) }
    h_20_g022(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if false { if k { lit("1"); } else { lit("0"); } } else if v == 3 && k { if k { lit("2"); } else { lit("n"); } } else if !k { esc(x); } else if v < 10 { lit("<4>"); } else if !l { esc(x); }  lit(" z"); end(b, classes!(frag_match!(if x.is_empty() { if k { 1 } else { 0 } } else if let (3, true) = w { frag_match!(if k { 2 } else { "n" }) } else if !k { idf(x) } else if let 0..=9 = v { raw!("<4>") } else if matches!(o, None) { (x, 1).0 } ), "z")) }
    h_20_g023(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 77 { lit("2"); } else if let Some(s) = o { esc(s); } else if false { lit("c"); } else if false { lit("-4"); } else if v > 100 && l { if k { lit("5"); } else { lit("n"); } } else { lit("10"); } lit("</p>"); end(b, p!(frag_match!(if v == 77 { { let q = 1; q + 1 } } else if let Some(s) = o { s } else if let Some("never") = o { 'c' } else if let Some("never") = o { -4 } else if v > 100 && l { frag_match!(if k { 5 } else { "n" }) } else { { let q = 9; q + 1 } }))) }
    h_20_g024(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 3 && k { if k { lit("1"); } else { lit("n"); } } else if v == 3 && k { lit("2,0"); } else if k || l { lit("a 3"); } else {  } lit("</p>"); end(b, p!(frag_match!(if let (3, true) = w { frag_match!(if k { 1 } else { "n" }) } else if let (3, true) = w { iter!(",", [2, 0]) } else if k || l { classes!("a", 3) } else { () }))) }
    h_20_g025(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if l { if k { lit("1"); } else { lit("0"); } } else if false { esc(y); lit("2"); } else if !k {  } else {  } lit(" z"); end(b, classes!(frag_match!(if o.is_some() { if k { 1 } else { 0 } } else if let Some("never") = o { frag!(y, "2") } else if !k { () } else { () }), "z")) }
    h_20_g026(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if !k { lit("1,0"); } else if v == 77 { esc(x); } else if v < 10 { esc(y); lit("3"); } else { lit("9"); } lit(" z"); end(b, classes!(frag_match!(if !k { iter!(",", [1, 0]) } else if v == 77 { (x, 1).0 } else if let 0..=9 = v { frag!(y, "3") } else { Some(9) }), "z")) }
    h_20_g027(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if let Some(s) = o { lit("<i>"); esc(s); lit("</i>"); } else if let Some(s) = o { esc(s); }  lit(" z"); end(b, classes!(frag_match!(if let Some(s) = o { i!(s) } else if let Some(s) = o { s } ), "z")) }
    h_20_g028(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if k || l {  } else if v < 10 { esc(x); } else if let Some(s) = o { esc(s); }  lit("</p>"); end(b, p!(frag_match!(if k || l { () } else if v < 10 { x } else if let Some(s) = o { s } ))) }
    h_20_g029(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if l { lit("s1"); } else if l { lit("&lt;2"); } else if false { lit("-3"); } else if v < 10 {  } else { lit("<9>"); } lit(" z"); end(b, classes!(frag_match!(if l { "s1" } else if idf(l) { format!("<{}", 2) } else if x.is_empty() { -3 } else if v < 10 { () } else { raw!("<9>") }), "z")) }
    h_20_g030(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v > 100 && l { esc(x); } else if !k { esc(x); } else if l { esc(x); } else { lit(if k { "false" } else { "true" }); } lit("</p>"); end(b, p!(frag_match!(if v > 100 && l { { x } } else if !k { (x, 1).0 } else if idf(l) { { x } } else { !k }))) }
    h_20_g031(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if let Some(s) = o { lit("<i>"); esc(s); lit("</i>"); } else if let Some(s) = o { esc(s); } else if v & 1 == 1 { lit("3,0"); } else { lit("9,0"); } lit("\"></p>"); end(b, p!(a = frag_match!(if let Some(s) = o { i!(s) } else if let Some(s) = o { s } else if { v & 1 == 1 } { iter!(",", [3, 0]) } else { iter!(",", [9, 0]) }))) }
    h_20_g032(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if !l { lit("<br>"); } else { esc(x); }  end(b, frag_match!(if matches!(o, None) { br!() } else { x })) }
    h_20_g033(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if l { lit("o1"); } else if l { if k { lit("2"); } else { lit("n"); } } else if v > 100 && l { lit("&lt;3"); } else { lit("&lt;9"); } lit("</p>"); end(b, p!(frag_match!(if o.is_some() { String::from("o1") } else if l { frag_match!(if k { 2 } else { "n" }) } else if v > 100 && l { format!("<{}", 3) } else { format!("<{}", 9) }))) }
    h_20_g034(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if false { lit(if k { "false" } else { "true" }); } else if !k { if k { lit("2"); } else { lit("n"); } } else if v > 100 && l { esc(x); } else if !l { lit("o4"); }  lit("</p>"); end(b, p!(frag_match!(if x.is_empty() { !k } else if !k { frag_match!(if k { 2 } else { "n" }) } else if v > 100 && l { x } else if matches!(o, None) { String::from("o4") } ))) }
    h_20_g035(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if v < 10 { lit(if k { "false" } else { "true" }); } else if v & 1 == 1 { if k { lit("2"); } else { lit("0"); } } else if k || l { lit("<b>3"); esc(x); lit("</b>"); }  lit("\"></p>"); end(b, p!(a = frag_match!(if v < 10 { !k } else if { v & 1 == 1 } { if k { 2 } else { 0 } } else if k || l { b!(3, x) } ))) }
    h_20_g036(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if false { esc(y); lit("1"); } else if false { esc(x); } else if v == 77 { esc(x); } else { esc(x); }  end(b, frag_match!(if let Some("never") = o { frag!(y, "1") } else if x.is_empty() { { x } } else if v == 77 { x } else { idf(x) })) }
    h_20_g037(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if let Some(s) = o { lit("<i>"); esc(s); lit("</i>"); } else if !k { esc(x); } else if l { lit("<b>3"); esc(x); lit("</b>"); } else if v == 77 { esc(x); } else if v > 100 && l { if k { lit("5"); } else { lit("0"); } } else { esc(y); lit("9"); } lit(" z"); end(b, classes!(frag_match!(if let Some(s) = o { i!(s) } else if !k { (x, 1).0 } else if o.is_some() { b!(3, x) } else if v == 77 { idf(x) } else if v > 100 && l { if k { 5 } else { 0 } } else { frag!(y, "9") }), "z")) }
    h_20_g038(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if false { lit("o1"); }  lit("</p>"); end(b, p!(frag_match!(if let Some("never") = o { String::from("o1") } ))) }
    h_20_g039(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v < 10 { lit("1"); } else if let Some(s) = o { esc(s); }  lit(" z"); end(b, classes!(frag_match!(if v < 10 { Some(1) } else if let Some(s) = o { s } ), "z")) }
    h_20_g040(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if !l { esc(x); } else { lit("<9>"); }  end(b, frag_match!(if matches!(o, None) { (x, 1).0 } else { raw!("<9>") })) }
    h_20_g041(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if l { lit("c"); } else if v == 3 && k { lit("<2>"); } else if v < 10 { lit("3"); } else if v == 77 { lit("4"); } else { esc(x); } lit(" z"); end(b, classes!(frag_match!(if o.is_some() { 'c' } else if let (3, true) = w { raw!("<2>") } else if v < 10 { Some(3) } else if v == 77 { 4 } else { idf(x) }), "z")) }
    h_20_g042(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if k || l { lit("1,0"); } else if l { esc(x); } else if !k { lit("c"); } else if l { lit("-4"); } else { esc(x); }  end(b, frag_match!(if k || l { iter!(",", [1, 0]) } else if idf(l) { { x } } else if !k { 'c' } else if idf(l) { -4 } else { { x } })) }
    h_20_g043(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if k || l {  } else if v == 3 && k { esc(x); } else if v < 10 { esc(x); } else { lit("<9>"); } lit("\"></p>"); end(b, p!(a = frag_match!(if k || l { () } else if let (3, true) = w { idf(x) } else if v < 10 { { x } } else { raw!("<9>") }))) }
    h_20_g044(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if false { esc(x); } else if k || l { esc(x); } else if v == 77 { lit("<br>"); } else if l { lit("o4"); } else if !k { lit("{5|dflt}"); }  lit("\"></p>"); end(b, p!(a = frag_match!(if let Some("never") = o { idf(x) } else if k || l { x } else if v == 77 { br!() } else if idf(l) { String::from("o4") } else if !k { cmp1!(a = 5) } ))) }
    h_20_g045(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if k { esc(x); } else { lit("s9"); } lit("\"></p>"); end(b, p!(a = frag_match!(if k { { x } } else { "s9" }))) }
    h_20_g046(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 77 { lit("<br>"); } else if false { lit("s2"); } else if v == 3 && k { lit("s3"); } else if v < 10 { lit("4"); }  lit("</p>"); end(b, p!(frag_match!(if v == 77 { br!() } else if let Some("never") = o { "s2" } else if let (3, true) = w { "s3" } else if v < 10 { 4 } ))) }
    h_20_g047(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v & 1 == 1 { lit("s1"); } else if l { lit("2,0"); } else if v == 3 && k { esc(x); } else if v < 10 { esc(y); lit("4"); } else { lit("<9>"); } lit("</p>"); end(b, p!(frag_match!(if { v & 1 == 1 } { "s1" } else if l { iter!(",", [2, 0]) } else if let (3, true) = w { x } else if v < 10 { frag!(y, "4") } else { raw!("<9>") }))) }
    h_20_g048(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if l { lit("o1"); }  lit("\"></p>"); end(b, p!(a = frag_match!(if idf(l) { String::from("o1") } ))) }
    h_20_g049(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v & 1 == 1 { lit("c"); } else if !k { esc(y); lit("2"); } else if v < 10 { esc(x); } else if k || l { if k { lit("4"); } else { lit("0"); } } else if l { lit("c"); }  lit(" z"); end(b, classes!(frag_match!(if { v & 1 == 1 } { 'c' } else if !k { frag!(y, "2") } else if let 0..=9 = v { { x } } else if k || l { if k { 4 } else { 0 } } else if idf(l) { 'c' } ), "z")) }
    h_20_g050(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if true {  }  lit(" z"); end(b, classes!(frag_match!(if true { () } ), "z")) }
    h_20_g051(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if l { esc(y); lit("1"); } else if false { lit("o2"); } else if !k {  } else if l { lit("4,0"); } else if v == 3 && k { lit("o5"); } else { lit("<br>"); } lit("</p>"); end(b, p!(frag_match!(if idf(l) { frag!(y, "1") } else if let Some("never") = o { String::from("o2") } else if !k { () } else if l { iter!(",", [4, 0]) } else if let (3, true) = w { String::from("o5") } else { br!() }))) }
    h_20_g052(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if v < 10 { esc(x); } else { esc(x); } lit("\"></p>"); end(b, p!(a = frag_match!(if let 0..=9 = v { idf(x) } else { (x, 1).0 }))) }
    h_20_g053(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if false { esc(y); lit("1"); }  lit(" z"); end(b, classes!(frag_match!(if x.is_empty() { frag!(y, "1") } ), "z")) }
    h_20_g054(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v < 10 { lit("-1"); } else if !k { esc(x); } else if l { lit("4"); } else if k || l { lit("4"); }   end(b, frag_match!(if v < 10 { -1 } else if !k { idf(x) } else if o.is_some() { { let q = 3; q + 1 } } else if k || l { 4 } )) }
    h_20_g055(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v == 77 { lit("o1"); }  lit(" z"); end(b, classes!(frag_match!(if v == 77 { String::from("o1") } ), "z")) }
    h_20_g056(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v == 77 { esc(x); } else if !k { esc(x); } else if v == 3 && k { lit("3"); } else if l { lit("4"); } else if v & 1 == 1 { lit("6"); }  lit(" z"); end(b, classes!(frag_match!(if v == 77 { idf(x) } else if !k { x } else if let (3, true) = w { Some(3) } else if l { Some(4) } else if { v & 1 == 1 } { { let q = 5; q + 1 } } ), "z")) }
    h_20_g057(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if l { esc(y); lit("1"); }  lit("\"></p>"); end(b, p!(a = frag_match!(if o.is_some() { frag!(y, "1") } ))) }
    h_20_g058(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if l { lit("<b>1"); esc(x); lit("</b>"); } else if v > 100 && l { lit(if k { "false" } else { "true" }); } else if v < 10 { lit("4"); } else if k { lit("<br>"); }  lit("\"></p>"); end(b, p!(a = frag_match!(if o.is_some() { b!(1, x) } else if v > 100 && l { !k } else if let 0..=9 = v { { let q = 3; q + 1 } } else if k { br!() } ))) }
    h_20_g059(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if let Some(s) = o { esc(s); } else { lit("9"); } lit(" z"); end(b, classes!(frag_match!(if let Some(s) = o { s } else { 9 }), "z")) }
    h_20_g060(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v < 10 { if k { lit("1"); } else { lit("0"); } } else { lit("{9|dflt}"); } lit(" z"); end(b, classes!(frag_match!(if v < 10 { if k { 1 } else { 0 } } else { cmp1!(a = 9) }), "z")) }
    h_20_g061(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v > 100 && l { esc(y); lit("1"); } else if !k { lit("<2>"); } else if k { lit("&lt;3"); } else if !k { esc(y); lit("4"); } else if k || l { lit("o5"); }  lit(" z"); end(b, classes!(frag_match!(if v > 100 && l { frag!(y, "1") } else if !k { raw!("<2>") } else if k { format!("<{}", 3) } else if !k { frag!(y, "4") } else if k || l { String::from("o5") } ), "z")) }
    h_20_g062(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if k { lit("a 1"); } else if !k { if k { lit("2"); } else { lit("0"); } } else if v == 77 { esc(x); } else if !k { esc(x); }  lit("\"></p>"); end(b, p!(a = frag_match!(if k { classes!("a", 1) } else if !k { if k { 2 } else { 0 } } else if v == 77 { idf(x) } else if !k { idf(x) } ))) }
    h_20_g063(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if l { esc(x); } else if l { lit("3"); } else if k { lit("-3"); } else if v > 100 && l { lit("&lt;4"); } else if k || l { lit("5"); }  lit("</p>"); end(b, p!(frag_match!(if idf(l) { x } else if idf(l) { { let q = 2; q + 1 } } else if k { -3 } else if v > 100 && l { format!("<{}", 4) } else if k || l { 5 } ))) }
    h_20_g064(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if l { lit(if k { "false" } else { "true" }); } else if let Some(s) = o { lit("<i>"); esc(s); lit("</i>"); } else if v & 1 == 1 { lit("<3>"); } else if k { lit("<b>4"); esc(x); lit("</b>"); } else if let Some(s) = o { esc(s); } else { esc(x); } lit("</p>"); end(b, p!(frag_match!(if o.is_some() { !k } else if let Some(s) = o { i!(s) } else if { v & 1 == 1 } { raw!("<3>") } else if k { b!(4, x) } else if let Some(s) = o { s } else { { x } }))) }
    h_20_g065(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if l { esc(x); } else if l { if k { lit("2"); } else { lit("n"); } } else if false { if k { lit("3"); } else { lit("0"); } } else if v == 77 { lit("o4"); } else if v == 3 && k { lit("5"); }   end(b, frag_match!(if idf(l) { { x } } else if idf(l) { frag_match!(if k { 2 } else { "n" }) } else if x.is_empty() { if k { 3 } else { 0 } } else if v == 77 { String::from("o4") } else if let (3, true) = w { Some(5) } )) }
    h_20_g066(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if l { esc(x); } else if !k { esc(x); } else if v == 77 { lit("c"); } else if k || l { lit("s4"); } else { lit("<br>"); } lit("\"></p>"); end(b, p!(a = frag_match!(if idf(l) { x } else if !k { { x } } else if v == 77 { 'c' } else if k || l { "s4" } else { br!() }))) }
    h_20_g067(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v < 10 { lit("{1|dflt}"); } else { lit("c"); } lit(" z"); end(b, classes!(frag_match!(if let 0..=9 = v { cmp1!(a = 1) } else { 'c' }), "z")) }
    h_20_g068(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if l { lit("c"); } else if false { lit("{2|dflt}"); }  lit(" z"); end(b, classes!(frag_match!(if o.is_some() { 'c' } else if let Some("never") = o { cmp1!(a = 2) } ), "z")) }
    h_20_g069(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p a=\""); if let Some(s) = o { esc(s); } else if v == 3 && k { lit("<b>2"); esc(x); lit("</b>"); } else if !l { lit("<3>"); }  lit("\"></p>"); end(b, p!(a = frag_match!(if let Some(s) = o { s } else if let (3, true) = w { b!(2, x) } else if matches!(o, None) { raw!("<3>") } ))) }
    h_20_g070(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if false { esc(x); } else if l && x.as_bytes()[0] == b'a' { lit("<2>"); } else if !l { lit(if k { "false" } else { "true" }); } else if false { esc(x); } else if l && v < 10 { lit("<b>"); esc(x); lit("</b>"); } else { esc(x); }  end(b, frag_match!(match o { Some(s) if s.len() == 99 => s, Some("a") => raw!("<2>"), None => !k, Some(_) if false => { x }, Some(s) if matches!(v, 0..=9) => b!(s), _ => (x, 1).0, })) }
    h_20_g071(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v >= 10 {  } else if v == 0 { lit("a 2"); } else if v == 7 { esc(x); } else if v >= 3 && v <= 9 { lit("4,0"); } else { if k { lit("9"); } else { lit("n"); } } lit("</p>"); end(b, p!(frag_match!(match v { 10.. => (), 0 => classes!("a", 2), mk::SEV => x, 3..=9 => { iter!(",", [4, 0]) }, _ => frag_match!(if k { 9 } else { "n" }) }))) }
    h_20_g072(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v == 11 { lit("{1|dflt}"); } else if v == 1 || v == 2 { esc(x); } else if false { if k { lit("3"); } else { lit("0"); } } else if v == 12 { esc(x); } else if v == 7 { esc(x); } else if false { lit("6"); } else if v >= 3 && v <= 9 { lit("7"); } else if k { lit("9"); } else if v >= 15 && v <= 30 && k { lit("9"); } else if v == 4 { lit("o10"); } else if v == 13 || v == 14 { lit("<b>11"); esc(x); lit("</b>"); } else if k && !l { lit("s12"); } else if v == 255 { lit("13"); } else if l && v > 7 { lit("<14>"); } else if v <= 3 { lit("16"); } else if v == 97 { lit("<b>16"); esc(x); lit("</b>"); } else if v == 5 || v == 6 { lit("17"); } else { esc(y); lit("9"); }  end(b, frag_match!(match v { n if true && n == 11 => { cmp1!(a = 1) }, 1 | 2 => x, _ if false => if k { 3 } else { 0 }, 12 if K7 == 7 => x, mk::SEV => x, _ if K7 != 7 => 6, 3..=9 => { 7 }, _ if k => { let q = 8; q + 1 }, 15..=30 if idf(k) => 9, n if n == 4 => String::from("o10"), | 13 | 14 => b!(11, x), _ if { k && !l } => "s12", 255 => Some(13), n if l && n > 7 => raw!("<14>"), ..=3 => { let q = 15; q + 1 }, b'a' => b!(16, x), n @ 5..=6 => 17 as u64, _ => frag!(y, "9") })) }
    h_20_g073(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 32 { lit("s1"); } else if !k { lit("{2|dflt}"); } else if false { lit("a 3"); } else { lit("o9"); } lit("</p>"); end(b, p!(frag_match!(match (v, k) { (32, ..) => "s1", (_, false) => cmp1!(a = 2), (_, true) if false => classes!("a", 3), _ => String::from("o9"), }))) }
    h_20_g074(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if l && x.as_bytes()[0] == b'a' { lit("2"); } else if l && (x.as_bytes()[0] == b'<' || x.as_bytes()[0] == b'>') { if k { lit("2"); } else { lit("n"); } } else if !l { lit("-3"); } else if l { lit("&lt;4"); } else if false { lit("6"); } else if !l { lit("o6"); } else { esc(x); } lit("</p>"); end(b, p!(frag_match!(match Some(o).unwrap() { Some("a") => { let q = 1; q + 1 }, Some("<" | ">") => frag_match!(if k { 2 } else { "n" }), None => { -3 }, Some(_) => format!("<{}", 4), Some(_) if false => { let q = 5; q + 1 }, None if true => String::from("o6"), _ => x }))) }
    h_20_g075(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 7 { lit("s1"); } else if v == 255 { esc(x); } else if v == 8 || v == 9 { lit("&lt;3"); } else if v == 1 || v == 2 { lit("o4"); } else if false { if k { lit("5"); } else { lit("0"); } } else if v == 1 { lit("<br>"); } else if l && v > 7 { esc(y); lit("7"); } else if v >= 10 { lit("o8"); } else { esc(x); } lit("</p>"); end(b, p!(frag_match!(match (v) { K7 => "s1", 255 => idf(x), (8 | 9) => format!("<{}", 3), 1 | 2 => String::from("o4"), _ if false => if k { 5 } else { 0 }, 1 if true => br!(), n if l && n > 7 => { frag!(y, "7") }, 10.. => String::from("o8"), _ => { x }, }))) }
    h_20_g076(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if false { esc(x); } else if false { lit("<br>"); } else if l { lit("s3"); } else if l && (x.as_bytes()[0] == b'<' || x.as_bytes()[0] == b'>') { lit("&lt;4"); } else { lit("9"); } lit("</p>"); end(b, p!(frag_match!(match o { Some(s) if s.len() == 99 => s, Some(_) if false => br!(), Some(_) => { "s3" }, Some("<" | ">") => format!("<{}", 4), _ => 9 }))) }
    h_20_g077(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v == 0 && k { lit(if k { "false" } else { "true" }); } else if v == 20 { lit("<2>"); } else if k && l { esc(x); } else if !k { esc(x); } else if v == 32 { lit("c"); } else if false {  } else if v > 5 && !k {  } else if v >= 1 && v <= 9 { if k { lit("8"); } else { lit("n"); } } else if !k && l { lit("a 9"); } else if v == 31 { lit(if k { "false" } else { "true" }); } else { if k { lit("9"); } else { lit("n"); } }  end(b, frag_match!(match (v, k) { (0, true) => !k, (n @ 20, _) => raw!("<2>"), (_, true) if l => idf(x), (_, false) => x, (32, ..) => 'c', (_, true) if false => (), (n, false) if n > 5 => (), (1..=9, _) => frag_match!(if k { 8 } else { "n" }), (.., false) if l => { classes!("a", 9) }, (_, _) if true && v == 31 => { !k }, _ => frag_match!(if k { 9 } else { "n" }) })) }
    h_20_g078(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 32 { lit("-1"); } else { lit("9"); } lit("</p>"); end(b, p!(frag_match!(match w { (32, ..) => -1, _ => Some(9), }))) }
    h_20_g079(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v > 5 && !k { lit("s1"); } else if false { lit("<b>2"); esc(x); lit("</b>"); } else if v == 0 && k { lit("a 3"); } else if v == 31 { lit(if k { "false" } else { "true" }); } else { lit("a 9"); } lit("</p>"); end(b, p!(frag_match!(match w { (n, false) if n > 5 => "s1", (_, true) if false => b!(2, x), (0, true) => classes!("a", 3), (_, _) if true && v == 31 => { !k }, _ => classes!("a", 9), }))) }
    h_20_g080(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if l && k { esc(x); } else if l && (x.as_bytes()[0] == b'<' || x.as_bytes()[0] == b'>') { lit("2"); } else { if k { lit("9"); } else { lit("n"); } }  end(b, frag_match!(match Some(o).unwrap() { Some(s) if k => { s }, Some("<" | ">") => Some(2), _ => frag_match!(if k { 9 } else { "n" }), })) }
    h_20_g081(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if false { esc(x); } else if l && x.as_bytes()[0] == b'a' { lit("<br>"); } else { lit("s9"); } lit("</p>"); end(b, p!(frag_match!(match Some(o).unwrap() { Some(s) if s.len() == 99 => s, Some("a") => br!(), _ => "s9", }))) }
    h_20_g082(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if l && v < 10 { esc(x); } else if l && x.as_bytes()[0] == b'a' { lit("{2|dflt}"); } else if l && (x.as_bytes()[0] == b'<' || x.as_bytes()[0] == b'>') { lit(if k { "false" } else { "true" }); } else if false { lit("<b>4"); esc(x); lit("</b>"); } else if !l { lit("<br>"); } else if l && k { lit("<b>"); esc(x); lit("</b>"); } else if false { lit("<b>"); esc(x); lit("</b>"); } else { if k { lit("9"); } else { lit("n"); } } lit("</p>"); end(b, p!(frag_match!(match Some(o).unwrap() { Some(s) if matches!(v, 0..=9) => s, Some("a") => cmp1!(a = 2), Some("<" | ">") => !k, Some(_) if false => b!(4, x), None => br!(), Some(s) if k => { b!(s) }, Some(s) if s.len() == 99 => b!(s), _ => frag_match!(if k { 9 } else { "n" }), }))) }
    h_20_g083(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v >= 15 && v <= 30 && k {  } else if k { esc(y); lit("2"); } else if false { esc(x); } else if v >= 10 { lit("<b>4"); esc(x); lit("</b>"); } else if v == 4 { esc(x); } else if v == 8 || v == 9 { lit("o6"); } else if k && !l { lit("s7"); } else if v == 13 || v == 14 { lit("8,0"); } else if v == 12 { lit("9"); } else if v == 1 || v == 2 { esc(x); } else if v == 7 { lit("<11>"); } else if false { lit("-12"); } else if v == 7 { lit("14"); } else if v == 255 {  } else if v >= 3 && v <= 9 { lit("15"); } else if v <= 3 { lit("17"); } else { esc(y); lit("9"); }  end(b, frag_match!(match (v) { 15..=30 if idf(k) => (), _ if k => frag!(y, "2"), _ if K7 != 7 => { x }, 10.. => b!(4, x), n if n == 4 => { x }, (8 | 9) => { String::from("o6") }, _ if { k && !l } => "s7", | 13 | 14 => iter!(",", [8, 0]), 12 if K7 == 7 => Some(9), 1 | 2 => (x, 1).0, K7 => raw!("<11>"), _ if false => -12, mk::SEV => { let q = 13; q + 1 }, 255 => (), 3..=9 => { 15 }, ..=3 => { let q = 16; q + 1 }, _ => frag!(y, "9"), })) }
    h_20_g084(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if !k { esc(y); lit("1"); } else if !k && l { lit("<b>2"); esc(x); lit("</b>"); } else if v == 31 { if k { lit("3"); } else { lit("n"); } } else if false { lit("-4"); } else if v == 32 { esc(y); lit("5"); } else if v == 0 && k { lit("<b>6"); esc(x); lit("</b>"); } else if v == 20 { lit("c"); } else if v > 5 && !k { esc(x); } else if k && l { if k { lit("9"); } else { lit("0"); } } else if v >= 1 && v <= 9 { lit("&lt;10"); } else { esc(x); } lit("</p>"); end(b, p!(frag_match!(match { w } { (_, false) => frag!(y, "1"), (.., false) if l => b!(2, x), (_, _) if true && v == 31 => frag_match!(if k { 3 } else { "n" }), (_, true) if false => -4, (32, ..) => frag!(y, "5"), (0, true) => b!(6, x), (n @ 20, _) => { 'c' }, (n, false) if n > 5 => { { x } }, (_, true) if l => { if k { 9 } else { 0 } }, (1..=9, _) => format!("<{}", 10), _ => x, }))) }
    h_20_g085(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if l && x.as_bytes()[0] == b'a' { lit("1"); } else if l && (x.as_bytes()[0] == b'<' || x.as_bytes()[0] == b'>') { lit("{2|dflt}"); } else if !l { esc(y); lit("3"); } else if !l { if k { lit("4"); } else { lit("n"); } } else if false { lit("-5"); } else { lit("&lt;9"); } lit("</p>"); end(b, p!(frag_match!(match o { Some("a") => 1, Some("<" | ">") => { cmp1!(a = 2) }, None => frag!(y, "3"), None if true => frag_match!(if k { 4 } else { "n" }), Some(_) if false => -5, _ => format!("<{}", 9), }))) }
    h_20_g086(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if l && (x.as_bytes()[0] == b'<' || x.as_bytes()[0] == b'>') {  } else { lit("a 9"); }  end(b, frag_match!(match idf(o) { Some("<" | ">") => (), _ => classes!("a", 9), })) }
    h_20_g087(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if false { esc(x); } else { lit("9,0"); }  end(b, frag_match!(match idf(o) { Some(s) if s.len() == 99 => s, _ => iter!(",", [9, 0]), })) }
    h_20_g088(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 31 { lit("&lt;1"); } else if v == 0 && k { esc(x); } else if !k { lit("3"); } else if !k && l { lit("4"); } else if v == 32 { lit("<br>"); } else { lit("9"); } lit("</p>"); end(b, p!(frag_match!(match w { (_, _) if true && v == 31 => { format!("<{}", 1) }, (0, true) => x, (_, false) => 3, (.., false) if l => { 4 }, (32, ..) => br!(), _ => 9 as u64, }))) }
    h_20_g089(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v == 7 { lit("{1|dflt}"); } else if v == 7 { esc(y); lit("2"); } else if l && v > 7 { lit(if k { "false" } else { "true" }); } else if v == 12 { lit("o4"); } else if v == 5 || v == 6 { lit("<5>"); } else if false { lit("6,0"); } else if v == 11 { esc(x); } else if v == 97 { esc(x); } else { lit("<b>9"); esc(x); lit("</b>"); }  end(b, frag_match!(match (v) { mk::SEV => cmp1!(a = 1), K7 => frag!(y, "2"), n if l && n > 7 => { !k }, 12 if K7 == 7 => String::from("o4"), n @ 5..=6 => raw!("<5>"), _ if false => iter!(",", [6, 0]), n if true && n == 11 => x, b'a' => { x }, _ => b!(9, x), })) }
    h_20_g090(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if false {  } else if v == 31 { if k { lit("2"); } else { lit("n"); } } else if !k { lit("<3>"); } else if v >= 1 && v <= 9 { lit("4,0"); } else if k && l { lit("<br>"); } else if v == 32 { lit("c"); } else { esc(x); }  end(b, frag_match!(match w { (_, true) if false => (), (_, _) if true && v == 31 => frag_match!(if k { 2 } else { "n" }), (_, false) => raw!("<3>"), (1..=9, _) => iter!(",", [4, 0]), (_, true) if l => br!(), (32, ..) => 'c', _ => (x, 1).0, })) }
    h_20_g091(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v == 97 { lit("{1|dflt}"); } else if v >= 3 && v <= 9 { lit("s2"); } else if v == 1 || v == 2 { lit("-3"); } else if false { lit("{4|dflt}"); } else if v == 255 { esc(x); } else if k && !l { lit("o6"); } else if false { if k { lit("7"); } else { lit("n"); } } else if l && v > 7 { lit("8"); } else if v >= 15 && v <= 30 && k { lit("10"); } else { if k { lit("9"); } else { lit("n"); } }  end(b, frag_match!(match (v) { b'a' => cmp1!(a = 1), 3..=9 => "s2", 1 | 2 => { -3 }, _ if K7 != 7 => { cmp1!(a = 4) }, 255 => idf(x), _ if { k && !l } => { String::from("o6") }, _ if false => frag_match!(if k { 7 } else { "n" }), n if l && n > 7 => { 8 }, 15..=30 if idf(k) => { let q = 9; q + 1 }, _ => frag_match!(if k { 9 } else { "n" }), })) }
    h_20_g092(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if k { lit("o1"); } else if v >= 15 && v <= 30 && k { lit("a 2"); } else if v >= 10 { lit("&lt;3"); } else if v <= 3 { lit("c"); } else if false { lit("<br>"); } else if v == 1 { lit(if k { "false" } else { "true" }); } else if v == 8 || v == 9 { lit("&lt;7"); } else if v == 12 { lit("9"); } else if v == 7 { lit("9"); } else if l && v > 7 { lit(if k { "false" } else { "true" }); } else if v == 1 || v == 2 { esc(x); } else if k && !l { lit("12"); } else if v == 13 || v == 14 { lit("<13>"); } else { if k { lit("9"); } else { lit("0"); } } lit("</p>"); end(b, p!(frag_match!(match v { _ if k => { String::from("o1") }, 15..=30 if idf(k) => classes!("a", 2), 10.. => format!("<{}", 3), ..=3 => 'c', _ if K7 != 7 => br!(), 1 if true => !k, (8 | 9) => format!("<{}", 7), 12 if K7 == 7 => { { let q = 8; q + 1 } }, mk::SEV => 9 as u64, n if l && n > 7 => !k, 1 | 2 => idf(x), _ if { k && !l } => 12, | 13 | 14 => raw!("<13>"), _ => if k { 9 } else { 0 } }))) }
    h_20_g093(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v == 12 { lit("<b>1"); esc(x); lit("</b>"); } else if v == 13 || v == 14 { esc(x); } else if v == 7 { esc(y); lit("3"); } else if v == 97 { lit("4,0"); } else { lit("9"); }  end(b, frag_match!(match (v) { 12 if K7 == 7 => b!(1, x), | 13 | 14 => { x }, mk::SEV => frag!(y, "3"), b'a' => { iter!(",", [4, 0]) }, _ => 9 })) }
    h_20_g094(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 20 { lit(if k { "false" } else { "true" }); } else if v == 31 { lit("-2"); } else if v > 5 && !k { esc(x); } else if v == 32 { lit("4,0"); } else if !k { esc(x); } else if k && l { lit("{6|dflt}"); } else if v == 0 && k { lit("7"); } else if !k && l {  } else { if k { lit("9"); } else { lit("0"); } } lit("</p>"); end(b, p!(frag_match!(match (v, k) { (n @ 20, _) => !k, (_, _) if true && v == 31 => -2, (n, false) if n > 5 => { x }, (32, ..) => iter!(",", [4, 0]), (_, false) => { (x, 1).0 }, (_, true) if l => cmp1!(a = 6), (0, true) => 7 as u64, (.., false) if l => (), _ => if k { 9 } else { 0 }, }))) }
    h_20_g095(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v >= 1 && v <= 9 { lit("1,0"); } else if v == 32 {  } else if v == 20 { lit("3,0"); } else if !k && l { lit("4,0"); } else if k && l { lit("<br>"); } else if v > 5 && !k { lit("c"); } else if v == 31 { lit("c"); } else if !k { lit("8"); } else if false { lit("<br>"); } else { esc(x); } lit("</p>"); end(b, p!(frag_match!(match (v, k) { (1..=9, _) => iter!(",", [1, 0]), (32, ..) => { () }, (n @ 20, _) => iter!(",", [3, 0]), (.., false) if l => iter!(",", [4, 0]), (_, true) if l => br!(), (n, false) if n > 5 => 'c', (_, _) if true && v == 31 => 'c', (_, false) => 8, (_, true) if false => { br!() }, _ => (x, 1).0, }))) }
    h_20_g096(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if false { lit("<br>"); } else if v == 4 { lit("c"); } else if v == 255 { lit("3"); } else if v == 97 { lit("<b>4"); esc(x); lit("</b>"); } else if v >= 3 && v <= 9 { lit("<5>"); } else if v == 13 || v == 14 { esc(y); lit("6"); } else if v >= 15 && v <= 30 && k { lit("c"); } else if k { lit("9"); } else if false { lit("<9>"); } else if v == 5 || v == 6 { esc(x); } else if false { lit("11"); } else if v >= 10 { esc(y); lit("12"); } else {  } lit("</p>"); end(b, p!(frag_match!(match v { _ if false => br!(), n if n == 4 => 'c', 255 => 3, b'a' => { b!(4, x) }, 3..=9 => { raw!("<5>") }, | 13 | 14 => frag!(y, "6"), 15..=30 if idf(k) => { 'c' }, _ if k => { let q = 8; q + 1 }, _ if K7 != 7 => raw!("<9>"), n @ 5..=6 => (x, 1).0, 2..=20 if (false) => Some(11), 10.. => frag!(y, "12"), _ => (), }))) }
    h_20_g097(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if l && (x.as_bytes()[0] == b'<' || x.as_bytes()[0] == b'>') { lit("2"); } else if false { esc(x); } else if l && k { lit("<b>"); esc(x); lit("</b>"); } else if !l { lit("4"); } else if l && v < 10 { lit("<b>"); esc(x); lit("</b>"); } else { lit("s9"); } lit("</p>"); end(b, p!(frag_match!(match Some(o).unwrap() { Some("<" | ">") => { let q = 1; q + 1 }, Some(s) if s.len() == 99 => { s }, Some(s) if k => { b!(s) }, None => Some(4), Some(s) if matches!(v, 0..=9) => b!(s), _ => "s9", }))) }
    h_20_g098(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 5 || v == 6 { lit("-1"); } else if v == 11 { lit("2,0"); } else if v <= 3 { lit("{3|dflt}"); } else if v == 7 { lit("{4|dflt}"); } else if v >= 10 { lit("<br>"); } else if v == 12 { esc(x); } else if v == 1 { lit("<br>"); } else if v == 255 { lit("<b>8"); esc(x); lit("</b>"); } else if v >= 15 && v <= 30 && k { lit("c"); } else if v == 1 || v == 2 { lit("o10"); } else if false { lit("<br>"); } else if v == 13 || v == 14 { lit("-12"); } else if v == 0 { if k { lit("13"); } else { lit("0"); } } else if k && !l { lit("<14>"); } else if v == 8 || v == 9 { if k { lit("15"); } else { lit("0"); } } else if false { lit("16,0"); } else if k { esc(x); } else if l && v > 7 { lit("<18>"); } else if v == 4 { if k { lit("19"); } else { lit("n"); } } else { lit("a 9"); } lit("</p>"); end(b, p!(frag_match!(match idf(v) { n @ 5..=6 => -1, n if true && n == 11 => iter!(",", [2, 0]), ..=3 => cmp1!(a = 3), mk::SEV => cmp1!(a = 4), 10.. => br!(), 12 if K7 == 7 => { idf(x) }, 1 if true => br!(), 255 => b!(8, x), 15..=30 if idf(k) => 'c', 1 | 2 => String::from("o10"), _ if K7 != 7 => br!(), | 13 | 14 => -12, 0 => { if k { 13 } else { 0 } }, _ if { k && !l } => { raw!("<14>") }, (8 | 9) => if k { 15 } else { 0 }, 2..=20 if (false) => iter!(",", [16, 0]), _ if k => (x, 1).0, n if l && n > 7 => { raw!("<18>") }, n if n == 4 => frag_match!(if k { 19 } else { "n" }), _ => classes!("a", 9) }))) }
    h_20_g099(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v == 0 { lit("-1"); } else if v == 12 { lit("o2"); } else if v == 4 { esc(x); } else if false { if k { lit("4"); } else { lit("n"); } } else if v == 7 { lit("5"); } else { lit("9,0"); }  end(b, frag_match!(match idf(v) { 0 => -1, 12 if K7 == 7 => String::from("o2"), n if n == 4 => { idf(x) }, 2..=20 if (false) => { frag_match!(if k { 4 } else { "n" }) }, K7 => 5, _ => iter!(",", [9, 0]), })) }
    h_20_g100(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v == 97 { esc(x); } else if k { lit(if k { "false" } else { "true" }); } else if v >= 10 { lit("-3"); } else if v == 255 { lit("4,0"); } else if v == 7 { if k { lit("5"); } else { lit("n"); } } else if v == 5 || v == 6 { lit("6,0"); } else if v >= 15 && v <= 30 && k { lit("o7"); } else if v == 1 { esc(x); } else if v <= 3 { lit(if k { "false" } else { "true" }); } else if v == 13 || v == 14 { lit("11"); } else if l && v > 7 { lit("<11>"); } else if v == 4 { lit("{12|dflt}"); } else if v == 12 { lit("{13|dflt}"); } else if false { lit("{14|dflt}"); } else if k && !l { lit("a 15"); } else if false { if k { lit("16"); } else { lit("0"); } } else if v == 0 { lit("<b>17"); esc(x); lit("</b>"); } else if v == 1 || v == 2 { esc(x); } else { lit("<b>9"); esc(x); lit("</b>"); }  end(b, frag_match!(match { v } { b'a' => (x, 1).0, _ if k => !k, 10.. => -3, 255 => iter!(",", [4, 0]), K7 => { frag_match!(if k { 5 } else { "n" }) }, n @ 5..=6 => iter!(",", [6, 0]), 15..=30 if idf(k) => String::from("o7"), 1 if true => x, ..=3 => !k, | 13 | 14 => { let q = 10; q + 1 }, n if l && n > 7 => raw!("<11>"), n if n == 4 => { cmp1!(a = 12) }, 12 if K7 == 7 => cmp1!(a = 13), 2..=20 if (false) => cmp1!(a = 14), _ if { k && !l } => classes!("a", 15), _ if false => if k { 16 } else { 0 }, 0 => b!(17, x), 1 | 2 => { x }, _ => b!(9, x), })) }
    h_20_g101(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if !k && l { lit("<br>"); } else { lit("<9>"); } lit("</p>"); end(b, p!(frag_match!(match { w } { (.., false) if l => br!(), _ => raw!("<9>"), }))) }
    h_20_g102(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if !k { lit("<br>"); } else if v == 20 { lit("{2|dflt}"); } else if !k && l { lit("-3"); } else if v == 0 && k { lit("&lt;4"); } else if v == 32 { lit("c"); } else if v > 5 && !k { lit("s6"); } else if v == 31 { lit("<b>7"); esc(x); lit("</b>"); } else if k && l { lit("<b>8"); esc(x); lit("</b>"); } else { esc(x); } lit("</p>"); end(b, p!(frag_match!(match { w } { (_, false) => br!(), (n @ 20, _) => cmp1!(a = 2), (.., false) if l => -3, (0, true) => format!("<{}", 4), (32, ..) => 'c', (n, false) if n > 5 => "s6", (_, _) if true && v == 31 => { b!(7, x) }, (_, true) if l => b!(8, x), _ => x }))) }
    h_20_g103(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v == 8 || v == 9 { lit("s1"); } else { esc(x); }  end(b, frag_match!(match (v) { (8 | 9) => "s1", _ => { x } })) }
    h_20_g104(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v <= 3 { lit("s1"); } else if v == 5 || v == 6 {  } else if v == 0 { lit("o3"); } else if v == 97 { esc(x); } else if v >= 3 && v <= 9 { if k { lit("5"); } else { lit("n"); } } else if v >= 15 && v <= 30 && k { esc(x); } else if false { lit("8"); } else if v == 11 { lit("8"); } else if v == 1 || v == 2 { if k { lit("9"); } else { lit("0"); } } else if v == 13 || v == 14 { lit("10"); } else { lit("9"); } lit("</p>"); end(b, p!(frag_match!(match idf(v) { ..=3 => "s1", n @ 5..=6 => { () }, 0 => String::from("o3"), b'a' => (x, 1).0, 3..=9 => frag_match!(if k { 5 } else { "n" }), 15..=30 if idf(k) => idf(x), _ if false => { let q = 7; q + 1 }, n if true && n == 11 => Some(8), 1 | 2 => { if k { 9 } else { 0 } }, | 13 | 14 => 10, _ => Some(9) }))) }
    h_20_g105(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 0 && k { esc(x); } else if v >= 1 && v <= 9 { lit("{2|dflt}"); } else if k && l { esc(x); } else { esc(x); } lit("</p>"); end(b, p!(frag_match!(match (v, k) { (0, true) => { x }, (1..=9, _) => cmp1!(a = 2), (_, true) if l => { x }, _ => { x }, }))) }
    h_20_g106(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if false { lit("1"); } else if v == 4 { lit("s2"); } else if v == 97 { lit("3,0"); } else if k { lit("4"); } else { lit("9,0"); }  end(b, frag_match!(match idf(v) { _ if false => 1, n if n == 4 => "s2", b'a' => iter!(",", [3, 0]), _ if k => { Some(4) }, _ => iter!(",", [9, 0]), })) }
    h_20_g107(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v == 1 { lit("<b>1"); esc(x); lit("</b>"); } else if v == 5 || v == 6 { esc(x); } else if v == 7 { lit("3,0"); } else if v == 1 || v == 2 { lit("4"); } else if v == 7 { esc(x); } else if false { if k { lit("6"); } else { lit("0"); } } else if v == 255 { lit("7,0"); } else if k && !l { lit("8,0"); } else if l && v > 7 { lit("9,0"); } else if v == 13 || v == 14 { lit("s10"); } else if v >= 3 && v <= 9 { if k { lit("11"); } else { lit("0"); } } else if k { lit(if k { "false" } else { "true" }); } else if v <= 3 { lit("13"); } else if v == 11 { esc(x); } else { lit("9"); }  end(b, frag_match!(match v + 0 { 1 if true => b!(1, x), n @ 5..=6 => idf(x), K7 => iter!(",", [3, 0]), 1 | 2 => 4, mk::SEV => { x }, 2..=20 if (false) => if k { 6 } else { 0 }, 255 => iter!(",", [7, 0]), _ if { k && !l } => iter!(",", [8, 0]), n if l && n > 7 => iter!(",", [9, 0]), | 13 | 14 => { "s10" }, 3..=9 => if k { 11 } else { 0 }, _ if k => !k, ..=3 => 13, n if true && n == 11 => idf(x), _ => 9 as u64, })) }
    h_20_g108(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if l && x.as_bytes()[0] == b'a' { lit("o1"); } else if false { esc(x); } else { lit("s9"); }  end(b, frag_match!(match o { Some("a") => String::from("o1"), Some(s) if s.len() == 99 => s, _ => "s9", })) }
    h_20_g109(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if false { lit(if k { "false" } else { "true" }); } else if false { lit("<b>"); esc(x); lit("</b>"); } else if l && v < 10 { esc(x); } else { esc(x); }  end(b, frag_match!(match o { Some(_) if false => !k, Some(s) if s.len() == 99 => b!(s), Some(s) if matches!(v, 0..=9) => s, _ => (x, 1).0, })) }
    h_20_g110(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if l && k { esc(x); } else if !l { lit("c"); } else if false { if k { lit("3"); } else { lit("0"); } } else if false { lit("<b>"); esc(x); lit("</b>"); } else { lit("<9>"); }  end(b, frag_match!(match o { Some(s) if k => s, None if true => 'c', Some(_) if false => { if k { 3 } else { 0 } }, Some(s) if s.len() == 99 => b!(s), _ => raw!("<9>"), })) }
    h_20_g111(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if k && l { lit("1"); } else if !k { lit("a 2"); } else if v == 20 { lit("-3"); } else if v == 32 { if k { lit("4"); } else { lit("0"); } } else if v >= 1 && v <= 9 { lit("{5|dflt}"); } else if false { lit("s6"); } else if v == 31 { lit("{7|dflt}"); } else if v > 5 && !k { lit("<br>"); } else if v == 0 && k { lit("<9>"); } else if !k && l { lit("10"); } else { lit("<br>"); } lit("</p>"); end(b, p!(frag_match!(match { w } { (_, true) if l => 1, (_, false) => classes!("a", 2), (n @ 20, _) => -3, (32, ..) => { if k { 4 } else { 0 } }, (1..=9, _) => cmp1!(a = 5), (_, true) if false => "s6", (_, _) if true && v == 31 => cmp1!(a = 7), (n, false) if n > 5 => br!(), (0, true) => { raw!("<9>") }, (.., false) if l => { Some(10) }, _ => br!(), }))) }
    h_20_g112(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 7 { lit("1"); } else if v >= 3 && v <= 9 { lit("2"); } else if v == 1 || v == 2 { lit("&lt;3"); } else if v == 255 { esc(y); lit("4"); } else { lit("10"); } lit("</p>"); end(b, p!(frag_match!(match v { K7 => { 1 }, 3..=9 => { 2 }, 1 | 2 => format!("<{}", 3), 255 => frag!(y, "4"), _ => { let q = 9; q + 1 } }))) }
    h_20_g113(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if k { lit("-1"); } else if v <= 3 { lit("o2"); } else if v == 12 { lit("3"); } else if false { lit("o4"); } else if v == 13 || v == 14 { lit("<b>5"); esc(x); lit("</b>"); } else if v == 97 { esc(x); } else if v == 4 { lit("a 7"); } else if false { lit("8,0"); } else if v == 11 { esc(x); } else if false { esc(x); } else if v == 8 || v == 9 { lit("-11"); } else if v == 7 { if k { lit("12"); } else { lit("n"); } } else if k && !l { lit("13"); } else if v == 0 { esc(x); } else if v == 7 { esc(x); } else if v >= 10 { lit(if k { "false" } else { "true" }); } else if v >= 15 && v <= 30 && k { lit("17,0"); } else if v == 5 || v == 6 { lit("<br>"); } else if l && v > 7 { lit("20"); } else if v == 1 || v == 2 {  } else { if k { lit("9"); } else { lit("0"); } }  end(b, frag_match!(match v { _ if k => { -1 }, ..=3 => String::from("o2"), 12 if K7 == 7 => 3, 2..=20 if (false) => String::from("o4"), | 13 | 14 => b!(5, x), b'a' => { (x, 1).0 }, n if n == 4 => classes!("a", 7), _ if false => { iter!(",", [8, 0]) }, n if true && n == 11 => { (x, 1).0 }, _ if K7 != 7 => { x }, (8 | 9) => { -11 }, mk::SEV => frag_match!(if k { 12 } else { "n" }), _ if { k && !l } => 13, 0 => x, K7 => (x, 1).0, 10.. => !k, 15..=30 if idf(k) => iter!(",", [17, 0]), n @ 5..=6 => { br!() }, n if l && n > 7 => { { let q = 19; q + 1 } }, 1 | 2 => (), _ => if k { 9 } else { 0 }, })) }
    h_20_g114(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 255 { esc(x); } else if false { lit("2"); } else if v == 0 { lit("a 3"); } else if v == 7 { lit("4"); } else if v == 13 || v == 14 { if k { lit("5"); } else { lit("0"); } } else if v == 12 { esc(x); } else if v == 1 || v == 2 { lit("a 7"); } else if v == 1 { lit("8"); } else if v >= 15 && v <= 30 && k { lit("9"); } else if v == 4 { lit("11"); } else if k { esc(x); } else if l && v > 7 { if k { lit("12"); } else { lit("0"); } } else if v == 97 { if k { lit("13"); } else { lit("n"); } } else if v == 5 || v == 6 { esc(x); } else if false { lit("16"); } else {  } lit("</p>"); end(b, p!(frag_match!(match (v) { 255 => x, 2..=20 if (false) => Some(2), 0 => classes!("a", 3), mk::SEV => Some(4), | 13 | 14 => if k { 5 } else { 0 }, 12 if K7 == 7 => idf(x), 1 | 2 => classes!("a", 7), 1 if true => Some(8), 15..=30 if idf(k) => Some(9), n if n == 4 => { let q = 10; q + 1 }, _ if k => (x, 1).0, n if l && n > 7 => if k { 12 } else { 0 }, b'a' => { frag_match!(if k { 13 } else { "n" }) }, n @ 5..=6 => x, _ if K7 != 7 => { { let q = 15; q + 1 } }, _ => (), }))) }
    h_20_g115(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if l && (x.as_bytes()[0] == b'<' || x.as_bytes()[0] == b'>') { lit("<b>1"); esc(x); lit("</b>"); } else if l && k { esc(x); } else { lit("c"); } lit("</p>"); end(b, p!(frag_match!(match o { Some("<" | ">") => b!(1, x), Some(s) if k => s, _ => 'c' }))) }
    h_20_g116(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if false { if k { lit("1"); } else { lit("n"); } } else if !l {  } else if l && v < 10 { esc(x); } else if l && (x.as_bytes()[0] == b'<' || x.as_bytes()[0] == b'>') { esc(y); lit("4"); } else if l { lit("5"); } else { lit("a 9"); } lit("</p>"); end(b, p!(frag_match!(match Some(o).unwrap() { Some(_) if false => frag_match!(if k { 1 } else { "n" }), None if true => { () }, Some(s) if matches!(v, 0..=9) => { s }, Some("<" | ">") => frag!(y, "4"), Some(_) => Some(5), _ => classes!("a", 9), }))) }
    h_20_g117(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if !l { esc(x); } else if l && (x.as_bytes()[0] == b'<' || x.as_bytes()[0] == b'>') { esc(x); } else if l { esc(y); lit("3"); } else if false { lit("<b>"); esc(x); lit("</b>"); } else if l && x.as_bytes()[0] == b'a' { esc(y); lit("5"); } else { lit("9"); }  end(b, frag_match!(match Some(o).unwrap() { None if true => (x, 1).0, Some("<" | ">") => (x, 1).0, Some(_) => frag!(y, "3"), Some(s) if s.len() == 99 => b!(s), Some("a") => frag!(y, "5"), _ => 9, })) }
    h_20_g118(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v >= 10 { if k { lit("1"); } else { lit("0"); } } else if v == 13 || v == 14 { lit("<br>"); } else if v == 97 { lit("<b>3"); esc(x); lit("</b>"); } else if false { esc(x); } else { lit("10"); }  end(b, frag_match!(match v + 0 { 10.. => if k { 1 } else { 0 }, | 13 | 14 => br!(), b'a' => b!(3, x), 2..=20 if (false) => x, _ => { let q = 9; q + 1 }, })) }
    h_20_g119(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v == 32 { if k { lit("1"); } else { lit("0"); } } else if v > 5 && !k { lit(if k { "false" } else { "true" }); } else if k && l { if k { lit("3"); } else { lit("0"); } } else if false { lit("4"); } else if v == 31 { lit("-5"); } else if v >= 1 && v <= 9 { lit("&lt;6"); } else if !k { lit("<br>"); } else if v == 20 { if k { lit("8"); } else { lit("0"); } } else { if k { lit("9"); } else { lit("n"); } }  end(b, frag_match!(match { w } { (32, ..) => if k { 1 } else { 0 }, (n, false) if n > 5 => !k, (_, true) if l => if k { 3 } else { 0 }, (_, true) if false => 4, (_, _) if true && v == 31 => -5, (1..=9, _) => format!("<{}", 6), (_, false) => { br!() }, (n @ 20, _) => if k { 8 } else { 0 }, _ => frag_match!(if k { 9 } else { "n" }) })) }
    h_20_g120(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if !k && l { lit("<1>"); } else if v > 5 && !k { lit("2"); } else if v == 20 { lit("<b>3"); esc(x); lit("</b>"); } else if v == 31 { if k { lit("4"); } else { lit("0"); } } else if v == 0 && k { esc(x); } else if v >= 1 && v <= 9 { lit("{6|dflt}"); } else if k && l { lit("c"); } else if false { lit("c"); } else { lit("<br>"); } lit("</p>"); end(b, p!(frag_match!(match { w } { (.., false) if l => { raw!("<1>") }, (n, false) if n > 5 => { 2 as u64 }, (n @ 20, _) => b!(3, x), (_, _) if true && v == 31 => if k { 4 } else { 0 }, (0, true) => idf(x), (1..=9, _) => cmp1!(a = 6), (_, true) if l => 'c', (_, true) if false => 'c', _ => br!(), }))) }
    h_20_g121(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 13 || v == 14 { lit("1,0"); } else if false { lit("&lt;2"); } else if v == 11 { lit("3"); } else if v == 97 { esc(x); } else if false { if k { lit("5"); } else { lit("0"); } } else if v == 1 { esc(x); } else if l && v > 7 { lit("<7>"); } else if v == 4 { lit("8"); } else if v == 5 || v == 6 { lit("a 9"); } else if v == 7 { lit(if k { "false" } else { "true" }); } else if v == 255 { lit("{11|dflt}"); } else if v >= 15 && v <= 30 && k { lit("a 12"); } else if v >= 10 { lit("13"); } else { esc(x); } lit("</p>"); end(b, p!(frag_match!(match v { | 13 | 14 => iter!(",", [1, 0]), 2..=20 if (false) => { format!("<{}", 2) }, n if true && n == 11 => Some(3), b'a' => idf(x), _ if false => if k { 5 } else { 0 }, 1 if true => idf(x), n if l && n > 7 => { raw!("<7>") }, n if n == 4 => 8, n @ 5..=6 => classes!("a", 9), K7 => !k, 255 => cmp1!(a = 11), 15..=30 if idf(k) => { classes!("a", 12) }, 10.. => 13, _ => x, }))) }
    h_20_g122(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v >= 1 && v <= 9 { lit("&lt;1"); } else if v == 32 { lit("2,0"); } else if v == 31 { lit("<br>"); } else if v == 20 { lit("4,0"); } else if v > 5 && !k {  } else if !k && l { lit("6"); } else if v == 0 && k { if k { lit("7"); } else { lit("n"); } } else if k && l { lit("c"); } else if !k { lit("9,0"); } else if false { if k { lit("10"); } else { lit("0"); } } else { lit("9,0"); }  end(b, frag_match!(match w { (1..=9, _) => format!("<{}", 1), (32, ..) => iter!(",", [2, 0]), (_, _) if true && v == 31 => br!(), (n @ 20, _) => iter!(",", [4, 0]), (n, false) if n > 5 => { () }, (.., false) if l => 6, (0, true) => frag_match!(if k { 7 } else { "n" }), (_, true) if l => { 'c' }, (_, false) => { iter!(",", [9, 0]) }, (_, true) if false => if k { 10 } else { 0 }, _ => iter!(",", [9, 0]), })) }
    h_20_g123(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 0 && k { lit("<b>1"); esc(x); lit("</b>"); } else if v == 31 { lit("2"); } else if v == 20 {  } else if k && l { if k { lit("4"); } else { lit("0"); } } else if v > 5 && !k { esc(x); } else { lit("10"); } lit("</p>"); end(b, p!(frag_match!(match (v, k) { (0, true) => b!(1, x), (_, _) if true && v == 31 => { Some(2) }, (n @ 20, _) => (), (_, true) if l => if k { 4 } else { 0 }, (n, false) if n > 5 => idf(x), _ => { let q = 9; q + 1 }, }))) }
    h_20_g124(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if l && k { esc(x); } else if !l { lit("3"); } else if l && (x.as_bytes()[0] == b'<' || x.as_bytes()[0] == b'>') { lit("{3|dflt}"); } else if l && x.as_bytes()[0] == b'a' { if k { lit("4"); } else { lit("n"); } } else if false { esc(x); } else { lit("-9"); }  end(b, frag_match!(match idf(o) { Some(s) if k => s, None if true => { let q = 2; q + 1 }, Some("<" | ">") => cmp1!(a = 3), Some("a") => frag_match!(if k { 4 } else { "n" }), Some(s) if s.len() == 99 => s, _ => -9, })) }
    h_20_g125(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 31 { if k { lit("1"); } else { lit("n"); } } else if k && l { esc(x); } else if !k { lit("<br>"); } else if v == 20 { lit("a 4"); } else if v > 5 && !k { esc(x); } else if v == 32 { if k { lit("6"); } else { lit("n"); } } else if v == 0 && k { lit("7,0"); } else if !k && l { if k { lit("8"); } else { lit("n"); } } else if false { if k { lit("9"); } else { lit("0"); } } else if v >= 1 && v <= 9 { lit("<br>"); } else { lit("9"); } lit("</p>"); end(b, p!(frag_match!(match w { (_, _) if true && v == 31 => frag_match!(if k { 1 } else { "n" }), (_, true) if l => idf(x), (_, false) => br!(), (n @ 20, _) => { classes!("a", 4) }, (n, false) if n > 5 => x, (32, ..) => frag_match!(if k { 6 } else { "n" }), (0, true) => { iter!(",", [7, 0]) }, (.., false) if l => { frag_match!(if k { 8 } else { "n" }) }, (_, true) if false => if k { 9 } else { 0 }, (1..=9, _) => br!(), _ => 9, }))) }
    h_20_g126(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if l { lit("<br>"); } else if !l { lit("{2|dflt}"); } else if l && (x.as_bytes()[0] == b'<' || x.as_bytes()[0] == b'>') { lit("c"); } else if l && k { esc(x); } else if false { lit("5"); } else if l && v < 10 { esc(x); } else if l && x.as_bytes()[0] == b'a' { esc(x); } else if false { lit("<b>"); esc(x); lit("</b>"); } else if !l { lit("a 9"); } else { lit("&lt;9"); } lit("</p>"); end(b, p!(frag_match!(match idf(o) { Some(_) => br!(), None if true => cmp1!(a = 2), Some("<" | ">") => 'c', Some(s) if k => s, Some(_) if false => 5 as u64, Some(s) if matches!(v, 0..=9) => s, Some("a") => { x }, Some(s) if s.len() == 99 => b!(s), None => { classes!("a", 9) }, _ => format!("<{}", 9) }))) }
    h_20_g127(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if false { lit("a 1"); } else if v >= 1 && v <= 9 { esc(y); lit("2"); } else if v == 0 && k { lit("3"); } else if !k { esc(x); } else if k && l { lit("o5"); } else if v > 5 && !k { lit("6"); } else if !k && l { if k { lit("7"); } else { lit("0"); } } else { lit("a 9"); }  end(b, frag_match!(match { w } { (_, true) if false => classes!("a", 1), (1..=9, _) => frag!(y, "2"), (0, true) => 3 as u64, (_, false) => x, (_, true) if l => String::from("o5"), (n, false) if n > 5 => { Some(6) }, (.., false) if l => if k { 7 } else { 0 }, _ => classes!("a", 9) })) }
    h_20_g128(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 0 { if k { lit("1"); } else { lit("n"); } } else if false { lit("2"); } else if false { esc(x); } else if v == 13 || v == 14 { esc(x); } else if v >= 15 && v <= 30 && k { lit("a 5"); } else { lit("<br>"); } lit("</p>"); end(b, p!(frag_match!(match v { 0 => frag_match!(if k { 1 } else { "n" }), _ if K7 != 7 => 2, _ if false => (x, 1).0, | 13 | 14 => (x, 1).0, 15..=30 if idf(k) => classes!("a", 5), _ => br!(), }))) }
    h_20_g129(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if l && k { esc(x); } else if false { esc(x); } else if l && v < 10 { esc(x); } else if l { lit(if k { "false" } else { "true" }); } else if l && (x.as_bytes()[0] == b'<' || x.as_bytes()[0] == b'>') { lit("o5"); } else { esc(y); lit("9"); } lit("</p>"); end(b, p!(frag_match!(match o { Some(s) if k => s, Some(_) if false => { { x } }, Some(s) if matches!(v, 0..=9) => s, Some(_) => { !k }, Some("<" | ">") => String::from("o5"), _ => frag!(y, "9") }))) }
    h_20_g130(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 32 { lit("{1|dflt}"); } else if v >= 1 && v <= 9 { esc(x); } else if v == 0 && k { lit("<3>"); } else if v == 31 { lit("{4|dflt}"); } else { lit("-9"); } lit("</p>"); end(b, p!(frag_match!(match { w } { (32, ..) => cmp1!(a = 1), (1..=9, _) => { x }, (0, true) => raw!("<3>"), (_, _) if true && v == 31 => { cmp1!(a = 4) }, _ => -9, }))) }
    h_20_g131(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 31 { if k { lit("1"); } else { lit("n"); } } else if v >= 1 && v <= 9 { lit("{2|dflt}"); } else if false { esc(x); } else if v > 5 && !k { lit("4"); } else if k && l { if k { lit("5"); } else { lit("0"); } } else if !k { lit("o6"); } else if v == 20 { lit("a 7"); } else if v == 32 { lit("8"); } else { lit("c"); } lit("</p>"); end(b, p!(frag_match!(match (v, k) { (_, _) if true && v == 31 => frag_match!(if k { 1 } else { "n" }), (1..=9, _) => { cmp1!(a = 2) }, (_, true) if false => (x, 1).0, (n, false) if n > 5 => Some(4), (_, true) if l => { if k { 5 } else { 0 } }, (_, false) => String::from("o6"), (n @ 20, _) => classes!("a", 7), (32, ..) => 8, _ => 'c', }))) }
    h_20_g132(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if l && x.as_bytes()[0] == b'a' { lit("<b>1"); esc(x); lit("</b>"); } else if l && (x.as_bytes()[0] == b'<' || x.as_bytes()[0] == b'>') { esc(x); } else if l && v < 10 { lit("<b>"); esc(x); lit("</b>"); } else if l && k { lit("<b>"); esc(x); lit("</b>"); } else { lit("a 9"); } lit("</p>"); end(b, p!(frag_match!(match o { Some("a") => b!(1, x), Some("<" | ">") => { { x } }, Some(s) if matches!(v, 0..=9) => b!(s), Some(s) if k => b!(s), _ => classes!("a", 9), }))) }
    h_20_g133(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if false { lit("1"); } else if v == 8 || v == 9 { if k { lit("2"); } else { lit("n"); } } else if false { lit("<3>"); } else if k && !l { if k { lit("4"); } else { lit("0"); } } else if v == 97 { lit("{5|dflt}"); } else { lit("9"); }  end(b, frag_match!(match { v } { 2..=20 if (false) => 1 as u64, (8 | 9) => frag_match!(if k { 2 } else { "n" }), _ if K7 != 7 => raw!("<3>"), _ if { k && !l } => { if k { 4 } else { 0 } }, b'a' => cmp1!(a = 5), _ => 9, })) }
    h_20_g134(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if !l { esc(x); } else if l && v < 10 { esc(x); } else if !l { lit("<br>"); } else if l { esc(x); } else if l && (x.as_bytes()[0] == b'<' || x.as_bytes()[0] == b'>') { lit("<b>5"); esc(x); lit("</b>"); } else if l && k { esc(x); } else { lit("o9"); } lit("</p>"); end(b, p!(frag_match!(match Some(o).unwrap() { None if true => idf(x), Some(s) if matches!(v, 0..=9) => s, None => br!(), Some(_) => idf(x), Some("<" | ">") => b!(5, x), Some(s) if k => s, _ => String::from("o9") }))) }
    h_20_g135(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v >= 3 && v <= 9 { if k { lit("1"); } else { lit("0"); } } else if v >= 10 { lit("2"); } else if v == 5 || v == 6 { lit("s3"); } else if v == 8 || v == 9 { lit("4"); } else if v == 13 || v == 14 { esc(x); } else if v == 7 { lit("o6"); } else if false { lit(if k { "false" } else { "true" }); } else if v == 255 { lit("a 8"); } else if v >= 15 && v <= 30 && k { lit("-9"); } else if v == 0 { lit("<10>"); } else if v <= 3 { lit("11"); } else if k { esc(x); } else if k && !l { lit("13"); } else if v == 1 { lit("<14>"); } else if false { lit("s15"); } else if v == 97 { lit("o16"); } else { lit(if k { "false" } else { "true" }); } lit("</p>"); end(b, p!(frag_match!(match { v } { 3..=9 => if k { 1 } else { 0 }, 10.. => 2, n @ 5..=6 => "s3", (8 | 9) => Some(4), | 13 | 14 => x, K7 => { String::from("o6") }, 2..=20 if (false) => !k, 255 => classes!("a", 8), 15..=30 if idf(k) => { -9 }, 0 => { raw!("<10>") }, ..=3 => Some(11), _ if k => idf(x), _ if { k && !l } => 13 as u64, 1 if true => raw!("<14>"), _ if K7 != 7 => "s15", b'a' => { String::from("o16") }, _ => !k, }))) }
    h_20_g136(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v == 32 { esc(x); } else if !k && l { lit(if k { "false" } else { "true" }); } else if k && l { lit("3"); } else { lit("9"); } lit("</p>"); end(b, p!(frag_match!(match { w } { (32, ..) => x, (.., false) if l => !k, (_, true) if l => 3 as u64, _ => Some(9), }))) }
    h_20_g137(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if false { lit("<b>"); esc(x); lit("</b>"); } else if l && k { esc(x); } else if !l { esc(x); } else if l && x.as_bytes()[0] == b'a' { esc(x); } else if l && v < 10 { esc(x); } else { esc(x); }  end(b, frag_match!(match Some(o).unwrap() { Some(s) if s.len() == 99 => b!(s), Some(s) if k => s, None if true => { idf(x) }, Some("a") => idf(x), Some(s) if matches!(v, 0..=9) => s, _ => { x }, })) }
    h_20_g138(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v >= 1 && v <= 9 { if k { lit("1"); } else { lit("n"); } } else if v == 0 && k { esc(y); lit("2"); } else { lit("9,0"); }  end(b, frag_match!(match (v, k) { (1..=9, _) => frag_match!(if k { 1 } else { "n" }), (0, true) => frag!(y, "2"), _ => iter!(",", [9, 0]) })) }
    h_20_g139(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if v == 20 { lit("1"); } else { lit("o9"); }  end(b, frag_match!(match { w } { (n @ 20, _) => Some(1), _ => String::from("o9"), })) }
    h_20_g140(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if v >= 1 && v <= 9 { lit("c"); } else if v == 0 && k { lit("<br>"); } else if k && l { esc(x); } else if !k && l { lit(if k { "false" } else { "true" }); } else if v > 5 && !k { esc(x); } else if !k { lit("{6|dflt}"); } else if v == 32 { lit("-7"); } else if v == 20 { lit("o8"); } else if v == 31 { lit("c"); } else if false { lit("a 10"); } else { lit("s9"); } lit("</p>"); end(b, p!(frag_match!(match (v, k) { (1..=9, _) => 'c', (0, true) => br!(), (_, true) if l => { x }, (.., false) if l => !k, (n, false) if n > 5 => { idf(x) }, (_, false) => { cmp1!(a = 6) }, (32, ..) => { -7 }, (n @ 20, _) => String::from("o8"), (_, _) if true && v == 31 => 'c', (_, true) if false => classes!("a", 10), _ => "s9", }))) }
    h_20_g141(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if k { if k { lit("1"); } else { lit("n"); } } else if v == 5 || v == 6 { lit("2"); } else if l && v > 7 { lit("-3"); } else if v == 255 { lit("-4"); } else if v == 12 { lit(if k { "false" } else { "true" }); } else if k && !l { if k { lit("6"); } else { lit("n"); } } else { esc(y); lit("9"); } lit("</p>"); end(b, p!(frag_match!(match { v } { _ if k => frag_match!(if k { 1 } else { "n" }), n @ 5..=6 => Some(2), n if l && n > 7 => -3, 255 => -4, 12 if K7 == 7 => !k, _ if { k && !l } => frag_match!(if k { 6 } else { "n" }), _ => frag!(y, "9"), }))) }
    h_20_g142(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if l {  } else if l && x.as_bytes()[0] == b'a' { lit("s2"); } else if !l { lit("3"); } else if l && (x.as_bytes()[0] == b'<' || x.as_bytes()[0] == b'>') { lit("o4"); } else if l && k { esc(x); } else { esc(x); } lit("</p>"); end(b, p!(frag_match!(match o { Some(_) => { () }, Some("a") => "s2", None => Some(3), Some("<" | ">") => String::from("o4"), Some(s) if k => { s }, _ => x, }))) }
    h_20_g143(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if k && l { lit("1"); } else if v > 5 && !k { esc(y); lit("2"); } else if false { lit("{3|dflt}"); } else if v == 32 { lit("&lt;4"); } else if v == 20 { if k { lit("5"); } else { lit("n"); } } else if v >= 1 && v <= 9 { lit(if k { "false" } else { "true" }); } else if !k {  } else if v == 0 && k { lit("<br>"); } else if !k && l { esc(x); } else if v == 31 { esc(x); } else { esc(x); } lit("</p>"); end(b, p!(frag_match!(match w { (_, true) if l => 1 as u64, (n, false) if n > 5 => { frag!(y, "2") }, (_, true) if false => cmp1!(a = 3), (32, ..) => { format!("<{}", 4) }, (n @ 20, _) => frag_match!(if k { 5 } else { "n" }), (1..=9, _) => !k, (_, false) => (), (0, true) => { br!() }, (.., false) if l => (x, 1).0, (_, _) if true && v == 31 => { x }, _ => x }))) }
    h_20_g144(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if k { lit("o1"); } else if v >= 10 { lit("o2"); } else if v == 7 { esc(y); lit("3"); } else if v == 7 { lit("4"); } else if v == 0 { lit("5"); } else { esc(y); lit("9"); }  end(b, frag_match!(match idf(v) { _ if k => String::from("o1"), 10.. => String::from("o2"), mk::SEV => { frag!(y, "3") }, K7 => Some(4), 0 => 5 as u64, _ => frag!(y, "9") })) }
    h_20_g145(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if k && l { esc(x); } else if v >= 1 && v <= 9 { lit("<br>"); } else if v == 31 { lit("c"); } else if !k { lit("<br>"); } else if false { esc(y); lit("5"); } else { lit("c"); }  end(b, frag_match!(match { w } { (_, true) if l => { (x, 1).0 }, (1..=9, _) => br!(), (_, _) if true && v == 31 => 'c', (_, false) => br!(), (_, true) if false => frag!(y, "5"), _ => 'c', })) }
    h_20_g146(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if k { lit("-1"); } else if v == 12 { if k { lit("2"); } else { lit("0"); } } else if l && v > 7 { lit("3,0"); } else if v == 255 {  } else if v == 1 { lit("5"); } else if v == 1 || v == 2 { esc(x); } else if k && !l { lit("8"); } else if false { lit("<b>8"); esc(x); lit("</b>"); } else if false { esc(x); } else if v == 97 { lit("o10"); } else if v >= 10 { lit("<b>11"); esc(x); lit("</b>"); } else if v == 4 {  } else if v == 8 || v == 9 { lit("<13>"); } else if v == 11 { lit("14"); } else if v >= 3 && v <= 9 { lit("o15"); } else if v == 7 { lit("16,0"); } else if false { lit("&lt;17"); } else if v == 13 || v == 14 { lit("s18"); } else if v >= 15 && v <= 30 && k { lit(if k { "false" } else { "true" }); } else if v == 7 {  } else if v <= 3 { esc(x); } else if v == 0 { lit("22"); } else { lit("s9"); } lit("</p>"); end(b, p!(frag_match!(match idf(v) { _ if k => -1, 12 if K7 == 7 => if k { 2 } else { 0 }, n if l && n > 7 => iter!(",", [3, 0]), 255 => (), 1 if true => 5, 1 | 2 => (x, 1).0, _ if { k && !l } => { let q = 7; q + 1 }, 2..=20 if (false) => b!(8, x), _ if K7 != 7 => idf(x), b'a' => String::from("o10"), 10.. => { b!(11, x) }, n if n == 4 => (), (8 | 9) => { raw!("<13>") }, n if true && n == 11 => { 14 }, 3..=9 => String::from("o15"), mk::SEV => iter!(",", [16, 0]), _ if false => format!("<{}", 17), | 13 | 14 => "s18", 15..=30 if idf(k) => !k, K7 => (), ..=3 => (x, 1).0, 0 => Some(22), _ => "s9", }))) }
    h_20_g147(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if !k && l { lit("2"); } else if v >= 1 && v <= 9 { lit(if k { "false" } else { "true" }); } else if v == 0 && k { lit("<br>"); } else { lit("o9"); }  end(b, frag_match!(match (v, k) { (.., false) if l => { let q = 1; q + 1 }, (1..=9, _) => !k, (0, true) => br!(), _ => String::from("o9") })) }
    h_20_g148(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); lit("<p>"); if l && v < 10 { esc(x); } else if !l { lit(if k { "false" } else { "true" }); } else if l { lit("3"); } else if l && x.as_bytes()[0] == b'a' { esc(x); } else if false { esc(y); lit("5"); } else if false { esc(x); } else if l && k { esc(x); } else { lit("o9"); } lit("</p>"); end(b, p!(frag_match!(match idf(o) { Some(s) if matches!(v, 0..=9) => s, None if true => !k, Some(_) => Some(3), Some("a") => idf(x), Some(_) if false => frag!(y, "5"), Some(s) if s.len() == 99 => s, Some(s) if k => s, _ => String::from("o9") }))) }
    h_20_g149(b) { let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k);  if k && l { if k { lit("1"); } else { lit("n"); } } else if v >= 1 && v <= 9 { lit("s2"); } else if v == 20 {  } else if !k && l { esc(x); } else if v == 0 && k { lit("o5"); } else { lit("9"); }  end(b, frag_match!(match w { (_, true) if l => frag_match!(if k { 1 } else { "n" }), (1..=9, _) => "s2", (n @ 20, _) => { () }, (.., false) if l => { { x } }, (0, true) => String::from("o5"), _ => Some(9), })) }
    h_20_many11(b) { let x = t(1); let v = each(u8_() as usize); assume(v <= 11); match v { 0 => { lit("0"); } 1 => { lit("a1"); } 2 => { esc(x); } 3 => { lit("<i>3</i>"); } 4 => { lit("4"); } 5 => { lit("a5"); } 6 => { esc(x); } 7 => { lit("<i>7</i>"); } 8 => { lit("8"); } 9 => { lit("a9"); } 10 => { esc(x); } _ => { lit("other"); } } end(b, frag_match!(match v { 0 => 0, 1 => "a1", 2 => x, 3 => i!(3), 4 => 4, 5 => "a5", 6 => x, 7 => i!(7), 8 => 8, 9 => "a9", 10 => x, _ => "other" })) }
    h_20_manyif11(b) { let x = t(1); let v = each(u8_() as usize); assume(v <= 11); lit("<p>"); match v { 0 => { lit("0"); } 1 => { lit("a1"); } 2 => { esc(x); } 3 => { lit("<i>3</i>"); } 4 => { lit("4"); } 5 => { lit("a5"); } 6 => { esc(x); } 7 => { lit("<i>7</i>"); } 8 => { lit("8"); } 9 => { lit("a9"); } 10 => { esc(x); } _ => { lit("other"); } } lit("</p>"); end(b, p!(frag_match!(if v == 0 { 0 } else if v == 1 { "a1" } else if v == 2 { x } else if v == 3 { i!(3) } else if v == 4 { 4 } else if v == 5 { "a5" } else if v == 6 { x } else if v == 7 { i!(7) } else if v == 8 { 8 } else if v == 9 { "a9" } else if v == 10 { x } else { "other" }))) }
    h_20_same11(b) { let v = each(u8_() as usize); assume(v <= 11); if v < 11 { lit_dec(v as u32) } else { lit("other") } end(b, frag_match!(match v { 0 => "0", 1 => "1", 2 => "2", 3 => "3", 4 => "4", 5 => "5", 6 => "6", 7 => "7", 8 => "8", 9 => "9", 10 => "10", _ => "other" })) }
    h_20_many27(b) { let x = t(1); let v = each(u8_() as usize); assume(v <= 27); match v { 0 => { lit("a0"); } 1 => { esc(x); } 2 => { lit("<i>2</i>"); } 3 => { lit("3"); } 4 => { lit("a4"); } 5 => { esc(x); } 6 => { lit("<i>6</i>"); } 7 => { lit("7"); } 8 => { lit("a8"); } 9 => { esc(x); } 10 => { lit("<i>10</i>"); } 11 => { lit("11"); } 12 => { lit("a12"); } 13 => { esc(x); } 14 => { lit("<i>14</i>"); } 15 => { lit("15"); } 16 => { lit("a16"); } 17 => { esc(x); } 18 => { lit("<i>18</i>"); } 19 => { lit("19"); } 20 => { lit("a20"); } 21 => { esc(x); } 22 => { lit("<i>22</i>"); } 23 => { lit("23"); } 24 => { lit("a24"); } 25 => { esc(x); } 26 => { lit("<i>26</i>"); } _ => { lit("other"); } } end(b, frag_match!(match v { 0 => "a0", 1 => x, 2 => i!(2), 3 => 3, 4 => "a4", 5 => x, 6 => i!(6), 7 => 7, 8 => "a8", 9 => x, 10 => i!(10), 11 => 11, 12 => "a12", 13 => x, 14 => i!(14), 15 => 15, 16 => "a16", 17 => x, 18 => i!(18), 19 => 19, 20 => "a20", 21 => x, 22 => i!(22), 23 => 23, 24 => "a24", 25 => x, 26 => i!(26), _ => "other" })) }
    h_20_manyif27(b) { let x = t(1); let v = each(u8_() as usize); assume(v <= 27); lit("<p>"); match v { 0 => { lit("a0"); } 1 => { esc(x); } 2 => { lit("<i>2</i>"); } 3 => { lit("3"); } 4 => { lit("a4"); } 5 => { esc(x); } 6 => { lit("<i>6</i>"); } 7 => { lit("7"); } 8 => { lit("a8"); } 9 => { esc(x); } 10 => { lit("<i>10</i>"); } 11 => { lit("11"); } 12 => { lit("a12"); } 13 => { esc(x); } 14 => { lit("<i>14</i>"); } 15 => { lit("15"); } 16 => { lit("a16"); } 17 => { esc(x); } 18 => { lit("<i>18</i>"); } 19 => { lit("19"); } 20 => { lit("a20"); } 21 => { esc(x); } 22 => { lit("<i>22</i>"); } 23 => { lit("23"); } 24 => { lit("a24"); } 25 => { esc(x); } 26 => { lit("<i>26</i>"); } _ => { lit("other"); } } lit("</p>"); end(b, p!(frag_match!(if v == 0 { "a0" } else if v == 1 { x } else if v == 2 { i!(2) } else if v == 3 { 3 } else if v == 4 { "a4" } else if v == 5 { x } else if v == 6 { i!(6) } else if v == 7 { 7 } else if v == 8 { "a8" } else if v == 9 { x } else if v == 10 { i!(10) } else if v == 11 { 11 } else if v == 12 { "a12" } else if v == 13 { x } else if v == 14 { i!(14) } else if v == 15 { 15 } else if v == 16 { "a16" } else if v == 17 { x } else if v == 18 { i!(18) } else if v == 19 { 19 } else if v == 20 { "a20" } else if v == 21 { x } else if v == 22 { i!(22) } else if v == 23 { 23 } else if v == 24 { "a24" } else if v == 25 { x } else if v == 26 { i!(26) } else { "other" }))) }
    h_20_same27(b) { let v = each(u8_() as usize); assume(v <= 27); if v < 27 { lit_dec(v as u32) } else { lit("other") } end(b, frag_match!(match v { 0 => "0", 1 => "1", 2 => "2", 3 => "3", 4 => "4", 5 => "5", 6 => "6", 7 => "7", 8 => "8", 9 => "9", 10 => "10", 11 => "11", 12 => "12", 13 => "13", 14 => "14", 15 => "15", 16 => "16", 17 => "17", 18 => "18", 19 => "19", 20 => "20", 21 => "21", 22 => "22", 23 => "23", 24 => "24", 25 => "25", 26 => "26", _ => "other" })) }
    h_20_many40(b) { let x = t(1); let v = each(u8_() as usize); assume(v <= 40); match v { 0 => { esc(x); } 1 => { lit("<i>1</i>"); } 2 => { lit("2"); } 3 => { lit("a3"); } 4 => { esc(x); } 5 => { lit("<i>5</i>"); } 6 => { lit("6"); } 7 => { lit("a7"); } 8 => { esc(x); } 9 => { lit("<i>9</i>"); } 10 => { lit("10"); } 11 => { lit("a11"); } 12 => { esc(x); } 13 => { lit("<i>13</i>"); } 14 => { lit("14"); } 15 => { lit("a15"); } 16 => { esc(x); } 17 => { lit("<i>17</i>"); } 18 => { lit("18"); } 19 => { lit("a19"); } 20 => { esc(x); } 21 => { lit("<i>21</i>"); } 22 => { lit("22"); } 23 => { lit("a23"); } 24 => { esc(x); } 25 => { lit("<i>25</i>"); } 26 => { lit("26"); } 27 => { lit("a27"); } 28 => { esc(x); } 29 => { lit("<i>29</i>"); } 30 => { lit("30"); } 31 => { lit("a31"); } 32 => { esc(x); } 33 => { lit("<i>33</i>"); } 34 => { lit("34"); } 35 => { lit("a35"); } 36 => { esc(x); } 37 => { lit("<i>37</i>"); } 38 => { lit("38"); } 39 => { lit("a39"); } _ => { lit("other"); } } end(b, frag_match!(match v { 0 => x, 1 => i!(1), 2 => 2, 3 => "a3", 4 => x, 5 => i!(5), 6 => 6, 7 => "a7", 8 => x, 9 => i!(9), 10 => 10, 11 => "a11", 12 => x, 13 => i!(13), 14 => 14, 15 => "a15", 16 => x, 17 => i!(17), 18 => 18, 19 => "a19", 20 => x, 21 => i!(21), 22 => 22, 23 => "a23", 24 => x, 25 => i!(25), 26 => 26, 27 => "a27", 28 => x, 29 => i!(29), 30 => 30, 31 => "a31", 32 => x, 33 => i!(33), 34 => 34, 35 => "a35", 36 => x, 37 => i!(37), 38 => 38, 39 => "a39", _ => "other" })) }
    h_20_manyif40(b) { let x = t(1); let v = each(u8_() as usize); assume(v <= 40); lit("<p>"); match v { 0 => { esc(x); } 1 => { lit("<i>1</i>"); } 2 => { lit("2"); } 3 => { lit("a3"); } 4 => { esc(x); } 5 => { lit("<i>5</i>"); } 6 => { lit("6"); } 7 => { lit("a7"); } 8 => { esc(x); } 9 => { lit("<i>9</i>"); } 10 => { lit("10"); } 11 => { lit("a11"); } 12 => { esc(x); } 13 => { lit("<i>13</i>"); } 14 => { lit("14"); } 15 => { lit("a15"); } 16 => { esc(x); } 17 => { lit("<i>17</i>"); } 18 => { lit("18"); } 19 => { lit("a19"); } 20 => { esc(x); } 21 => { lit("<i>21</i>"); } 22 => { lit("22"); } 23 => { lit("a23"); } 24 => { esc(x); } 25 => { lit("<i>25</i>"); } 26 => { lit("26"); } 27 => { lit("a27"); } 28 => { esc(x); } 29 => { lit("<i>29</i>"); } 30 => { lit("30"); } 31 => { lit("a31"); } 32 => { esc(x); } 33 => { lit("<i>33</i>"); } 34 => { lit("34"); } 35 => { lit("a35"); } 36 => { esc(x); } 37 => { lit("<i>37</i>"); } 38 => { lit("38"); } 39 => { lit("a39"); } _ => { lit("other"); } } lit("</p>"); end(b, p!(frag_match!(if v == 0 { x } else if v == 1 { i!(1) } else if v == 2 { 2 } else if v == 3 { "a3" } else if v == 4 { x } else if v == 5 { i!(5) } else if v == 6 { 6 } else if v == 7 { "a7" } else if v == 8 { x } else if v == 9 { i!(9) } else if v == 10 { 10 } else if v == 11 { "a11" } else if v == 12 { x } else if v == 13 { i!(13) } else if v == 14 { 14 } else if v == 15 { "a15" } else if v == 16 { x } else if v == 17 { i!(17) } else if v == 18 { 18 } else if v == 19 { "a19" } else if v == 20 { x } else if v == 21 { i!(21) } else if v == 22 { 22 } else if v == 23 { "a23" } else if v == 24 { x } else if v == 25 { i!(25) } else if v == 26 { 26 } else if v == 27 { "a27" } else if v == 28 { x } else if v == 29 { i!(29) } else if v == 30 { 30 } else if v == 31 { "a31" } else if v == 32 { x } else if v == 33 { i!(33) } else if v == 34 { 34 } else if v == 35 { "a35" } else if v == 36 { x } else if v == 37 { i!(37) } else if v == 38 { 38 } else if v == 39 { "a39" } else { "other" }))) }
    h_20_same40(b) { let v = each(u8_() as usize); assume(v <= 40); if v < 40 { lit_dec(v as u32) } else { lit("other") } end(b, frag_match!(match v { 0 => "0", 1 => "1", 2 => "2", 3 => "3", 4 => "4", 5 => "5", 6 => "6", 7 => "7", 8 => "8", 9 => "9", 10 => "10", 11 => "11", 12 => "12", 13 => "13", 14 => "14", 15 => "15", 16 => "16", 17 => "17", 18 => "18", 19 => "19", 20 => "20", 21 => "21", 22 => "22", 23 => "23", 24 => "24", 25 => "25", 26 => "26", 27 => "27", 28 => "28", 29 => "29", 30 => "30", 31 => "31", 32 => "32", 33 => "33", 34 => "34", 35 => "35", 36 => "36", 37 => "37", 38 => "38", 39 => "39", _ => "other" })) }
    h_20_many70(b) { let x = t(1); let v = each(u8_() as usize); assume(v <= 70); match v { 0 => { lit("<i>0</i>"); } 1 => { lit("1"); } 2 => { lit("a2"); } 3 => { esc(x); } 4 => { lit("<i>4</i>"); } 5 => { lit("5"); } 6 => { lit("a6"); } 7 => { esc(x); } 8 => { lit("<i>8</i>"); } 9 => { lit("9"); } 10 => { lit("a10"); } 11 => { esc(x); } 12 => { lit("<i>12</i>"); } 13 => { lit("13"); } 14 => { lit("a14"); } 15 => { esc(x); } 16 => { lit("<i>16</i>"); } 17 => { lit("17"); } 18 => { lit("a18"); } 19 => { esc(x); } 20 => { lit("<i>20</i>"); } 21 => { lit("21"); } 22 => { lit("a22"); } 23 => { esc(x); } 24 => { lit("<i>24</i>"); } 25 => { lit("25"); } 26 => { lit("a26"); } 27 => { esc(x); } 28 => { lit("<i>28</i>"); } 29 => { lit("29"); } 30 => { lit("a30"); } 31 => { esc(x); } 32 => { lit("<i>32</i>"); } 33 => { lit("33"); } 34 => { lit("a34"); } 35 => { esc(x); } 36 => { lit("<i>36</i>"); } 37 => { lit("37"); } 38 => { lit("a38"); } 39 => { esc(x); } 40 => { lit("<i>40</i>"); } 41 => { lit("41"); } 42 => { lit("a42"); } 43 => { esc(x); } 44 => { lit("<i>44</i>"); } 45 => { lit("45"); } 46 => { lit("a46"); } 47 => { esc(x); } 48 => { lit("<i>48</i>"); } 49 => { lit("49"); } 50 => { lit("a50"); } 51 => { esc(x); } 52 => { lit("<i>52</i>"); } 53 => { lit("53"); } 54 => { lit("a54"); } 55 => { esc(x); } 56 => { lit("<i>56</i>"); } 57 => { lit("57"); } 58 => { lit("a58"); } 59 => { esc(x); } 60 => { lit("<i>60</i>"); } 61 => { lit("61"); } 62 => { lit("a62"); } 63 => { esc(x); } 64 => { lit("<i>64</i>"); } 65 => { lit("65"); } 66 => { lit("a66"); } 67 => { esc(x); } 68 => { lit("<i>68</i>"); } 69 => { lit("69"); } _ => { lit("other"); } } end(b, frag_match!(match v { 0 => i!(0), 1 => 1, 2 => "a2", 3 => x, 4 => i!(4), 5 => 5, 6 => "a6", 7 => x, 8 => i!(8), 9 => 9, 10 => "a10", 11 => x, 12 => i!(12), 13 => 13, 14 => "a14", 15 => x, 16 => i!(16), 17 => 17, 18 => "a18", 19 => x, 20 => i!(20), 21 => 21, 22 => "a22", 23 => x, 24 => i!(24), 25 => 25, 26 => "a26", 27 => x, 28 => i!(28), 29 => 29, 30 => "a30", 31 => x, 32 => i!(32), 33 => 33, 34 => "a34", 35 => x, 36 => i!(36), 37 => 37, 38 => "a38", 39 => x, 40 => i!(40), 41 => 41, 42 => "a42", 43 => x, 44 => i!(44), 45 => 45, 46 => "a46", 47 => x, 48 => i!(48), 49 => 49, 50 => "a50", 51 => x, 52 => i!(52), 53 => 53, 54 => "a54", 55 => x, 56 => i!(56), 57 => 57, 58 => "a58", 59 => x, 60 => i!(60), 61 => 61, 62 => "a62", 63 => x, 64 => i!(64), 65 => 65, 66 => "a66", 67 => x, 68 => i!(68), 69 => 69, _ => "other" })) }
    h_20_manyif70(b) { let x = t(1); let v = each(u8_() as usize); assume(v <= 70); lit("<p>"); match v { 0 => { lit("<i>0</i>"); } 1 => { lit("1"); } 2 => { lit("a2"); } 3 => { esc(x); } 4 => { lit("<i>4</i>"); } 5 => { lit("5"); } 6 => { lit("a6"); } 7 => { esc(x); } 8 => { lit("<i>8</i>"); } 9 => { lit("9"); } 10 => { lit("a10"); } 11 => { esc(x); } 12 => { lit("<i>12</i>"); } 13 => { lit("13"); } 14 => { lit("a14"); } 15 => { esc(x); } 16 => { lit("<i>16</i>"); } 17 => { lit("17"); } 18 => { lit("a18"); } 19 => { esc(x); } 20 => { lit("<i>20</i>"); } 21 => { lit("21"); } 22 => { lit("a22"); } 23 => { esc(x); } 24 => { lit("<i>24</i>"); } 25 => { lit("25"); } 26 => { lit("a26"); } 27 => { esc(x); } 28 => { lit("<i>28</i>"); } 29 => { lit("29"); } 30 => { lit("a30"); } 31 => { esc(x); } 32 => { lit("<i>32</i>"); } 33 => { lit("33"); } 34 => { lit("a34"); } 35 => { esc(x); } 36 => { lit("<i>36</i>"); } 37 => { lit("37"); } 38 => { lit("a38"); } 39 => { esc(x); } 40 => { lit("<i>40</i>"); } 41 => { lit("41"); } 42 => { lit("a42"); } 43 => { esc(x); } 44 => { lit("<i>44</i>"); } 45 => { lit("45"); } 46 => { lit("a46"); } 47 => { esc(x); } 48 => { lit("<i>48</i>"); } 49 => { lit("49"); } 50 => { lit("a50"); } 51 => { esc(x); } 52 => { lit("<i>52</i>"); } 53 => { lit("53"); } 54 => { lit("a54"); } 55 => { esc(x); } 56 => { lit("<i>56</i>"); } 57 => { lit("57"); } 58 => { lit("a58"); } 59 => { esc(x); } 60 => { lit("<i>60</i>"); } 61 => { lit("61"); } 62 => { lit("a62"); } 63 => { esc(x); } 64 => { lit("<i>64</i>"); } 65 => { lit("65"); } 66 => { lit("a66"); } 67 => { esc(x); } 68 => { lit("<i>68</i>"); } 69 => { lit("69"); } _ => { lit("other"); } } lit("</p>"); end(b, p!(frag_match!(if v == 0 { i!(0) } else if v == 1 { 1 } else if v == 2 { "a2" } else if v == 3 { x } else if v == 4 { i!(4) } else if v == 5 { 5 } else if v == 6 { "a6" } else if v == 7 { x } else if v == 8 { i!(8) } else if v == 9 { 9 } else if v == 10 { "a10" } else if v == 11 { x } else if v == 12 { i!(12) } else if v == 13 { 13 } else if v == 14 { "a14" } else if v == 15 { x } else if v == 16 { i!(16) } else if v == 17 { 17 } else if v == 18 { "a18" } else if v == 19 { x } else if v == 20 { i!(20) } else if v == 21 { 21 } else if v == 22 { "a22" } else if v == 23 { x } else if v == 24 { i!(24) } else if v == 25 { 25 } else if v == 26 { "a26" } else if v == 27 { x } else if v == 28 { i!(28) } else if v == 29 { 29 } else if v == 30 { "a30" } else if v == 31 { x } else if v == 32 { i!(32) } else if v == 33 { 33 } else if v == 34 { "a34" } else if v == 35 { x } else if v == 36 { i!(36) } else if v == 37 { 37 } else if v == 38 { "a38" } else if v == 39 { x } else if v == 40 { i!(40) } else if v == 41 { 41 } else if v == 42 { "a42" } else if v == 43 { x } else if v == 44 { i!(44) } else if v == 45 { 45 } else if v == 46 { "a46" } else if v == 47 { x } else if v == 48 { i!(48) } else if v == 49 { 49 } else if v == 50 { "a50" } else if v == 51 { x } else if v == 52 { i!(52) } else if v == 53 { 53 } else if v == 54 { "a54" } else if v == 55 { x } else if v == 56 { i!(56) } else if v == 57 { 57 } else if v == 58 { "a58" } else if v == 59 { x } else if v == 60 { i!(60) } else if v == 61 { 61 } else if v == 62 { "a62" } else if v == 63 { x } else if v == 64 { i!(64) } else if v == 65 { 65 } else if v == 66 { "a66" } else if v == 67 { x } else if v == 68 { i!(68) } else if v == 69 { 69 } else { "other" }))) }
    h_20_same70(b) { let v = each(u8_() as usize); assume(v <= 70); if v < 70 { lit_dec(v as u32) } else { lit("other") } end(b, frag_match!(match v { 0 => "0", 1 => "1", 2 => "2", 3 => "3", 4 => "4", 5 => "5", 6 => "6", 7 => "7", 8 => "8", 9 => "9", 10 => "10", 11 => "11", 12 => "12", 13 => "13", 14 => "14", 15 => "15", 16 => "16", 17 => "17", 18 => "18", 19 => "19", 20 => "20", 21 => "21", 22 => "22", 23 => "23", 24 => "24", 25 => "25", 26 => "26", 27 => "27", 28 => "28", 29 => "29", 30 => "30", 31 => "31", 32 => "32", 33 => "33", 34 => "34", 35 => "35", 36 => "36", 37 => "37", 38 => "38", 39 => "39", 40 => "40", 41 => "41", 42 => "42", 43 => "43", 44 => "44", 45 => "45", 46 => "46", 47 => "47", 48 => "48", 49 => "49", 50 => "50", 51 => "51", 52 => "52", 53 => "53", 54 => "54", 55 => "55", 56 => "56", 57 => "57", 58 => "58", 59 => "59", 60 => "60", 61 => "61", 62 => "62", 63 => "63", 64 => "64", 65 => "65", 66 => "66", 67 => "67", 68 => "68", 69 => "69", _ => "other" })) }
}
