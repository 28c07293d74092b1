//! conditional fragments
use crate::pre::*;
use laby::*;
extern crate alloc;
use alloc::{string::String, format, vec, vec::Vec};
/// records that it was evaluated
struct Log { n: [u8; 8], k: usize }
impl Log { fn new() -> Log { Log { n: [0; 8], k: 0 } } fn at<T>(&mut self, i: usize, v: T) -> T { self.n[i] += 1; self.k += 1; v } fn cond(&mut self, i: usize, v: bool) -> bool { self.n[i] += 1; v } }
enum E<'a> { A, B(&'a str), C { x: &'a str, n: u8 }, D(Option<&'a str>) }
fn some_e(x: &'static str) -> E<'static> { match choose(6) { 0 => E::A, 1 => E::B(x), 2 => E::C { x, n: 3 }, 3 => E::C { x, n: 4 }, 4 => E::D(None), _ => E::D(Some(x)) } }
case! {
    h_20_if(b) { let k = bool_(); let x = t(2); if k { esc(x) } end(b, frag_match!(if k { x })) }
    h_20_if_else(b) { let k = bool_(); let x = t(2); let y = t(1); esc(if k { x } else { y }); end(b, frag_match!(if k { x } else { y })) }
    h_20_if_types(b) { let k = bool_(); let x = t(1); if k { w!["<p>", [x], "</p>"] } else { lit("7") } end(b, frag_match!(if k { p!(x) } else { 7 })) }
    h_20_chain(b) { let v = u8_(); let x = t(1); if v < 10 { esc(x) } else if v < 20 { w!["<i>", [x], "</i>"] } else if v == 25 { lit("5") } else { lit("else") } end(b, frag_match!(if v < 10 { x } else if v < 20 { i!(x) } else if v == 25 { 5 } else { "else" })) }
    h_20_chain_no_else(b) { let v = u8_(); let x = t(1); if v < 10 { esc(x) } else if v < 20 { w!["<i>", [x], "</i>"] } else if v == 25 { lit("5") } end(b, frag_match!(if v < 10 { x } else if v < 20 { i!(x) } else if v == 25 { 5 })) }
    h_20_chain_conds(b) { let k = bool_(); let l = bool_(); let m = bool_(); let n = if k { 1 } else if l { 2 } else if m { 3 } else { 4 }; lit_dec(n); end(b, frag_match!(if k { 1 } else if l { 2 } else if m { 3 } else { 4 })) }
    h_20_overlap(b) { let v = u8_(); let n = if v > 10 { 1 } else if v > 5 { 2 } else if v > 20 { 3 } else if v > 0 { 4 } else { 0 }; if n > 0 { lit_dec(n) } end(b, frag_match!(if v > 10 { "1" } else if v > 5 { '2' } else if v > 20 { 3 } else if v > 0 { Some(4) })) }
    h_20_once(b) { let k = bool_(); let l = bool_(); let mut g = Log::new(); lit(if k { "a" } else if l { "b" } else { "c" });
        let n = frag_match!(if g.cond(0, k) { g.at(1, "a") } else if g.cond(2, l) { g.at(3, "b") } else { g.at(4, "c") });
        check(g.k == 1, 20); check(g.n == [1, k as u8, !k as u8, (!k && l) as u8, (!k && !l) as u8, 0, 0, 0], 21); end(b, n) }
    h_20_once_match(b) { let v = u8_(); let mut g = Log::new(); let w = if v == 1 { 1 } else if v < 9 { 2 } else if v == 200 { 3 } else { 4 }; lit_dec(w);
        let n = frag_match!(match g.at(0, v) { 1 => g.at(1, 1), n if n < 9 => g.at(2, 2), 200 => g.at(3, 3), _ => g.at(4, 4) });
        check(g.k == 2 && g.n[0] == 1 && g.n[w as usize] == 1, 20); end(b, n) }
    h_20_match(b) { let v = u8_(); let x = t(1); match v { 0 => lit("zero"), 1 | 2 => { w!["<p>", [x], "</p>"] } 3..=9 => esc(x), _ => lit("many") } end(b, frag_match!(match v { 0 => "zero", 1 | 2 => p!(x), 3..=9 => x, _ => "many" })) }
    h_20_match_str(b) { let x = t(3); if x == "one" { lit("1") } else if x == "two" { lit("2") } else { esc(x) } end(b, frag_match!(match x { "one" => 1, "two" => "2", other => other })) }
    h_20_match_bind(b) { let x = t(2); let o = match choose(2) { 0 => None, _ => Some(x) }; if let Some(s) = o { w!["<b>", [s], "</b>"] } else { lit("-") } end(b, frag_match!(match o { Some(s) => b!(s), None => "-" })) }
    h_20_match_guard(b) { let v = u8_(); let k = bool_(); let n = if v == 5 && k { 1 } else if v == 5 { 2 } else if v > 250 { 3 } else { 4 }; lit_dec(n); end(b, frag_match!(match v { 5 if k => 1, 5 => 2, n if n > 250 => 3, _ => 4 })) }
    h_20_guard_literal(b) { let v = u8_(); let x = t(1); match v { 0 => lit("z"), 1..=4 => w!["<b>", [x], "</b>"], 5 => lit("five"), _ => lit("rest") }
        end(b, frag_match!(match v { 0 if true => "z", 0 => "never", 1..=4 if false => x, 5 if (true) => "five", 5 => 0, 1..=4 if !false => b!(x), _ if false => "no", 9 if { false } => "no", _ => "rest" })) }
    h_20_guard_const(b) { let v = u8_(); const K: bool = true; const N: bool = false; static S: u8 = 3; let n = if v == 3 { 1 } else if v < 10 { 2 } else if v == 77 { 3 } else { 4 }; lit_dec(n);
        end(b, frag_match!(match v { 3 if N => 0, 3 if K => 1, q if q == S && N => 9, 0..=9 if K && true => "2", 77 if S == 3 => 3, _ if N || false => 8, _ if S > 3 => 7, _ => '4' })) }
    h_20_guard_let(b) { let v = u8_(); let k = bool_(); let o = if k { Some(v) } else { None }; let x = t(1); if k && v == 4 { lit("a") } else if k && v > 100 { esc(x) } else if k { lit_dec(v as u32) } else { lit("n") }
        end(b, frag_match!(match o { Some(n) if { let m = n; m == 4 } => "a", Some(n) if (|| n > 100)() => x, Some(n) if matches!(n, 0..=255) => n, Some(_) if loop { break true } => "no", None if match k { true => false, _ => true } => "n", _ => "never" })) }
    h_20_guard_effects(b) { let v = u8_(); let mut g = Log::new(); let w = if v == 1 { 1 } else if v < 9 { 2 } else { 3 }; lit_dec(w);
        let n = frag_match!(match v { 0..=9 if g.cond(0, v == 1) => g.at(1, 1), q if g.cond(2, q < 9) => g.at(3, "2"), _ if g.cond(4, false) => g.at(5, ()), _ => g.at(6, 3) });
        check(g.k == 1 && g.n[0] == (v < 10) as u8 && g.n[2] == (v != 1) as u8 && g.n[4] == (v != 1 && v >= 9) as u8 && g.n[5] == 0, 24); end(b, n) }
    h_20_diverge_never(b) { let k = bool_(); let x = t(1); let o: Result<&'static str, core::convert::Infallible> = Ok(x); esc(x); if k { lit("k") } end(b, frag!(frag_match!(match o { Ok(s) => s, Err(e) => { let n: u8 = match e {}; n } }), frag_match!(match (k, k) { (true, true) => "k", (false, false) => (), _ => { if k { unreachable!() } 5 } }))) }
    h_20_attrs(b) { let v = u8_(); let k = bool_(); if k { lit("k") } else { lit_dec(v as u32) } end(b, frag_match!(match k { #[allow(unused)] true => "k", #[allow(unreachable_patterns)] false => v })) }
    h_20_leading_or(b) { let v = u8_(); match v { 1 | 2 => lit("low"), 3 => lit("3"), _ => lit("?") } end(b, frag_match!(match v { | 1 | 2 => "low", | 3 if true => 3, | _ => "?" })) }
    h_20_match_enum(b) { let x = t(1); let e = some_e(x); match e { E::A => lit("A"), E::B(s) => { w!["<b>", [s], "</b>"] } E::C { x, n: 3 } => { w!["3", [x]] } E::C { n, .. } => lit_dec(n as u32), E::D(None) => {} E::D(Some(s)) => esc(s) }
        let n = frag_match!(match e { E::A => "A", E::B(s) => b!(s), E::C { x, n: 3 } => frag!(3, x), E::C { n, .. } => n, E::D(None) => (), E::D(Some(s)) => s }); end(b, n) }
    h_20_match_tuple(b) { let k = bool_(); let l = bool_(); let x = t(1); match (k, l) { (true, true) => lit("both"), (true, false) => esc(x), (false, true) => { w!["<i></i>"] } (false, false) => {} } end(b, frag_match!(match (k, l) { (true, true) => "both", (true, false) => x, (false, true) => i!(), (false, false) => () })) }
    h_20_match_blocks(b) { let v = u8_(); let x = t(1); match v { 0 => esc(x), 1 => { w![[x], [x]] } _ => lit_dec(9) } end(b, frag_match!(match v { 0 => { let y = x; y } 1 => { let mut s = String::from(x); s.push_str(x); s } _ => { let mut n = 0; for _ in 0..3 { n += 3 } n } })) }
    h_20_match_empty_arm(b) { let v = u8_(); let x = t(1); match v { 0 => esc(x), 1 => {} _ => lit("z") } end(b, frag_match!(match v { 0 => x, 1 => {}, _ => "z" })) }
    h_20_if_empty(b) { let k = bool_(); let x = t(1); if !k { esc(x) } end(b, frag_match!(if k { } else { x })) }
    h_20_if_blocks(b) { let v = u8_(); let x = t(1); if v > 3 { w!["q", [x]] } else { esc(x) } end(b, frag_match!(if v > 3 { let s = format!("q{}", x); s } else { let y = x; let z = y; z })) }
    h_20_if_let(b) { let x = t(2); let o = match choose(2) { 0 => None, _ => Some(x) }; if let Some(s) = o { esc(s) } else { lit("none") } end(b, frag_match!(if let Some(s) = o { s } else { "none" })) }
    h_20_if_let_chain(b) { let x = t(1); let y = t(1); let o = if bool_() { Some(x) } else { None }; let q = if bool_() { Ok(y) } else { Err(x) }; let k = bool_();
        if let Some(s) = o { w!["1", [s]] } else if k { lit("2") } else if let Ok(s) = q { w!["<u>", [s], "</u>"] } end(b, frag_match!(if let Some(s) = o { frag!(1, s) } else if k { 2 } else if let Ok(s) = q { u!(s) })) }
    h_20_nested_if(b) { let k = bool_(); let l = bool_(); let x = t(1); if k { if l { esc(x) } else { lit("kl") } } else if l { lit("l") } end(b, frag_match!(if k { frag_match!(if l { x } else { "kl" }) } else { frag_match!(if l { "l" }) })) }
    h_20_nested_match(b) { let v = u8_(); let k = bool_(); let x = t(1); match v { 0 => { if k { esc(x) } } 1 => { match k { true => lit("t"), false => w!["<p>", [x], "</p>"] } } _ => {} } end(b, frag_match!(match v { 0 => frag_match!(if k { x }), 1 => p_or(k, x), _ => () })) }
    h_20_nested_plain(b) { let k = bool_(); let l = bool_(); let x = t(1); if k { if l { esc(x) } else { lit("n") } } else { match l { true => lit("3"), false => lit("4") } } end(b, frag_match!(if k { if l { x } else { "n" } } else { match l { true => 3, false => 4 } })) }
    h_20_in_element(b) { let k = bool_(); let x = t(1); w!["<div a=\""]; if k { esc(x) } w!["\">", "<p>"]; if k { w!["<i>", [x], "</i>"] } else { lit("no") } w!["</p>", [x], "</div>"]; end(b, div!(a = frag_match!(if k { x }), p!(frag_match!(if k { i!(x) } else { "no" })), x)) }
    h_20_in_classes(b) { let k = bool_(); let x = t(1); w!["a "]; if k { lit("on") } w![" ", [x]]; end(b, classes!("a", frag_match!(if k { "on" }), x)) }
    h_20_in_iter(b) { let x = t(1); let l = bool_(); w!["<li>0</li>,"]; if l { esc(x) } w![",", "2"]; end(b, iter!(",", (0..3u8).map(|n| frag_match!(match n { 0 => li!("0"), 1 => frag_match!(if l { x }), n => n })))) }
    h_20_var(b) { let k = bool_(); let x = t(1); w!["<p>"]; lit(if k { "1" } else { "" }); w!["</p>", [x]]; let n = frag_match!(if k { 1 }); let e = p!(n); end(b, frag!(e, x)) }
    h_20_owned(b) { let k = bool_(); let x = t(2); let s = String::from(x); if k { esc(x) } else { lit("none") } end(b, frag_match!(if k { s } else { drop(s); "none" })) }
    h_20_move_both(b) { let k = bool_(); let x = t(1); let s = vec![x, x]; if k { w![[x], [x]] } else { w![[x], ",", [x]] } end(b, frag_match!(match k { true => iter!(s), false => iter!(",", s) })) }
    h_20_many(b) { let v = u8_(); if v < 12 { lit_dec(v as u32 + 100) } else { lit("rest") } end(b, frag_match!(match v { 0 => 100, 1 => "101", 2 => 102u8, 3 => 103i64, 4 => Some(104), 5 => "105", 6 => 106u128, 7 => raw!("107"), 8 => format!("{}", 108), 9 => frag!(1, 0, 9), 10 => "110", 11 => 111u16, _ => "rest" })) }
    h_20_or_guard(b) { let v = u8_(); let k = bool_(); let n = match v { 1 | 3 | 5 if k => 1, 1 | 2 => 2, 3..=5 => 3, _ => 4 }; lit_dec(n); end(b, frag_match!(match v { 1 | 3 | 5 if k => "1", 1 | 2 => "2", 3..=5 => "3", _ => "4" })) }
    h_20_at(b) { let v = u8_(); match v { n @ 10..=12 => { w!["n"]; lit_dec(n as u32) } n @ (1 | 4) => lit_dec(n as u32), _ => {} } end(b, frag_match!(match v { n @ 10..=12 => frag!("n", n), n @ (1 | 4) => n, _ => () })) }
    h_20_ref(b) { let x = t(1); let e = some_e(x); match e { E::B(s) => esc(s), E::C { x: y, .. } => { w!["c", [y]] } _ => lit("?") } end(b, frag_match!(match &e { E::B(s) => *s, E::C { x: y, .. } => frag!("c", *y), _ => "?" })) }
    h_20_slice(b) { let x = t(1); let n = choose(3); let l: &[&str] = match n { 0 => &[], 1 => &["q"], _ => &["q", "r"] }; match n { 0 => lit("empty"), 1 => { w!["q", [x]] } _ => { w!["q", "+", "r"] } } end(b, frag_match!(match l { [] => "empty", [a] => frag!(*a, x), [a, r @ ..] => frag!(*a, "+", r[0]) })) }
    h_20_side_effect(b) { let k = bool_(); let x = t(1); let mut n = 0u8; let r = frag_match!(if k { n += 1; x } else { n += 10; "e" }); check(n == if k { 1 } else { 10 }, 22); if k { esc(x) } else { lit("e") } end(b, r) }
    h_20_single_arm(b) { let x = t(2); esc(x); end(b, frag_match!(match x { s => s })) }
    h_20_char(b) { let c = any_char(); if c == '<' { lit("lt") } else { esc_char(c) } end(b, frag_match!(match c { '<' => "lt", c => c })) }
    h_20_return_value(b) { let x = t(1); let k = bool_(); fn f(k: bool, x: &'static str) -> impl Render { frag_match!(if k { x } else { ul!(li!(x)) }) } if k { esc(x) } else { w!["<ul><li>", [x], "</li></ul>"] } end(b, f(k, x)) }
    h_20_question(b) { let x = t(1); let k = bool_(); fn f(o: Option<&'static str>, k: bool) -> Option<String> { Some(render!(frag_match!(if k { o? } else { "d" }))) } let o = if bool_() { Some(x) } else { None }; let r = f(o, k); match (k, o) { (true, None) => check(r.is_none(), 23), (true, Some(x)) => esc(x), _ => lit("d") } end(b, r.map(laby::RenderRaw)) }
    h_20_flow_return(b) { let x = t(1); let n = choose(5);
        fn f(n: usize, x: &'static str) -> Option<String> { let o = if n == 3 { None } else { Some(x) };
            Some(render!(frag_match!(match n { 0 => { if n == 0 { return None } 0 } 1 => { let y = o?; p!(y) } 2 => { if x.len() == 1 { return Some(String::from("out")) } "in" } 3 => { let y = o?; y } _ => { let z = 1; if n > z { return Some(format!("{}{}", n, "r")); } z } }))) }
        match n { 0 | 3 => {} 1 => w!["<p>", [x], "</p>"], 2 => lit("out"), _ => lit("4r") } let r = f(n, x); check(r.is_none() == (n == 0 || n == 3), 24); end(b, r.map(laby::RenderRaw)) }
    h_20_flow_if(b) { let x = t(1); let k = bool_(); let l = bool_();
        fn f(k: bool, l: bool, x: &'static str) -> Result<String, u8> { let r = if l { Ok(x) } else { Err(7) };
            Ok(render!("a", frag_match!(if k { let y = r?; i!(y) } else if l { if !k { return Err(8); } 1 } else { r.or::<u8>(Ok("z"))? }))) }
        match (k, l) { (true, true) => w!["a<i>", [x], "</i>"], (false, false) => lit("az"), _ => {} } let r = f(k, l, x); check(r.as_ref().err().copied() == match (k, l) { (true, false) => Some(7), (false, true) => Some(8), _ => None }, 25); end(b, r.ok().map(laby::RenderRaw)) }
    h_20_flow_loop(b) { let x = t(1); let v = u8_(); let mut s = String::new();
        for i in 0..4u8 { let n = frag_match!(match i { 0 => "0", i if i == v => { if i < 4 { continue } 9 } 2 => { if v == 9 { break } "2" } _ => { x } }); s += &render!(n); }
        lit("0"); if v != 1 { esc(x) } if v != 9 { if v != 2 { lit("2") } if v != 3 { esc(x) } } end(b, laby::RenderRaw(s)) }
    h_20_flow_label(b) { let x = t(1); let v = u8_(); let mut s = String::new();
        'a: for i in 0..2u8 { loop { let n = frag_match!(if v == 5 { if i < 2 { break 'a; } 5 } else if i == 1 && v == 6 { if v > 2 { continue 'a; } 6 } else { x }); s += &render!(n, i); break } }
        if v != 5 { w![[x], "0"]; if v != 6 { w![[x], "1"] } } end(b, laby::RenderRaw(s)) }
}
fn p_or(k: bool, x: &'static str) -> impl Render { frag_match!(match k { true => "t", false => p!(x) }) }
