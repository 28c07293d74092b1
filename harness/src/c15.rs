//! void elements
use crate::pre::*;
use laby::*;
macro_rules! tags { ($($t:ident)*) => {
    pub const N: usize = [$(stringify!($t)),*].len();
    fn run(i: usize, f: usize, b: Buffer) { let mut k = 0; $( if i == k { return one::$t(f, b) } k += 1; )* }
    mod one { use crate::pre::*; use laby::*; $( pub fn $t(f: usize, buf: Buffer) {
        let n = stringify!($t);
        let x = t(2); let y = t(1); let v = u8_(); let on = bool_();
        match f {
            0 => { w!["<", (n), ">"]; end(buf, laby::$t!()) }
            1 => { w!["<", (n), " id=\"", [x], "\">"]; end(buf, $t!(id = x)) }
            2 => { w!["<", (n), " id=\"", [x], "\" class=\"k &quot;\" ", [y], "=\""]; lit_dec(v as u32); w!["\">"]; end(buf, $t!(id = x, class = "k \"", { y } = v,)) }
            3 => { w!["<", (n)]; if on { lit(" checked") } w![" value=\"", [x], "\">"]; end(buf, $t!(checked = bool!(on), value = x)) }
            4 => { w!["<div><", (n), "><", (n), " a=\"", [x], "\">", [y], "<", (n), "></div>"]; end(buf, div!($t!(), $t!(a = x), y, $t!())) }
            5 => { w!["<p><", (n), " a=\"", [x], "\"><", (n), "></p>"]; let e = $t!(a = x); end(buf, p!(e, laby::$t!())) }
            6 => { w!["<", (n), "><", (n), " b=\"", [y], "\"> ", "<", (n), "> <", (n), ">", [x]]; end(buf, frag!($t!(), classes!($t!(b = y), $t!(), $t!()), x)) }
            7 => { w!["<", (n), " readonly>"]; end(buf, $t!(readonly = bool!(true), disabled = bool!(false))) }
            8 => { w!["<ul><li><", (n), " x=\"", [x], "\">t</li>"]; if on { lit("<"); lit(n); lit(">") } w!["</ul>"]; end(buf, ul!(li!($t!(x = x), "t"), if on { Some($t!()) } else { None })) }
            _ => { w!["<", (n), ">", [x], "<", (n), ">"]; end(buf, frag!($t!(), x, { $t!() })) }
        }
    } )* }
} }
tags! { area base br col embed hr img input link meta param source track wbr }
/// capacity, previous length, form
#[no_mangle] pub fn h_15_tags() { let b = start(p(0), p(1)); let i = choose(N); run(i, p(2), b); check(live() == 0, 2) }
case! {
    h_15_form(b) { let x = t(2); let y = t(2); let on = bool_(); w!["<form><label>", [x], "<input type=\"checkbox\" name=\"", [y], "\""]; if on { lit(" checked") } w!["></label><hr><img src=\"", [x], "\" alt=\"", [y], "\"></form>"];
        end(b, form!(label!(x, input!(r#type = "checkbox", name = y, checked = bool!(on))), hr!(), img!(src = x, alt = y))) }
    h_15_head(b) { let x = t(2); w!["<head><meta charset=\"utf-8\"><link rel=\"stylesheet\" href=\"", [x], "\"><base href=\"/\"></head>"]; end(b, head!(meta!(charset = "utf-8"), link!(rel = "stylesheet", href = x), base!(href = "/"))) }
    h_15_list(b) { let x = t(1); w!["<br>", [x], "<br>", [x], "<br>"]; end(b, iter!([Some(x), Some(x), None].into_iter().map(|v| frag!(br!(), v)))) }
}
