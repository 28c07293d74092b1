//! inline and through a variable
use crate::pre::*;
use laby::*;
#[allow(unused)] macro_rules! super_same { ($x:expr) => { laby::i!($x) } }
extern crate alloc;
use alloc::string::String;
case! {
    h_18_one(b) { let x = t(2); w!["<div><p>", [x], "</p></div>"]; if choose(2) == 0 { end(b, div!(p!(x))) } else { let e = p!(x); end(b, div!(e)) } }
    h_18_attr(b) { let x = t(2); let y = t(1); w!["<div id=\"", [y], "\"><p class=\"", [x], "\">", [y], "</p></div>"]; match choose(3) { 0 => end(b, div!(p!(y, class = x), id = y)), 1 => { let e = p!(class = x, y); end(b, div!(id = y, e)) } _ => { let e = p!(class = x, y); let f = div!(id = y, e); end(b, f) } } }
    h_18_void(b) { let x = t(1); let k = bool_(); w!["<p><input name=\"", [x], "\""]; if k { lit(" checked") } w!["><br></p>"]; match choose(3) { 0 => end(b, p!(input!(name = x, checked = bool!(k)), br!())), 1 => { let i = input!(name = x, checked = bool!(k)); end(b, p!(i, br!())) } _ => { let i = input!(name = x, checked = bool!(k)); let r = br!(); end(b, p!(i, r)) } } }
    h_18_three(b) { let x = t(1); let y = t(1); let z = t(1); w!["<div>", [x], "<p>", [y], "<b>", [z], "</b>", [x], "</p>", [y], "</div>"];
        match choose(4) { 0 => end(b, div!(x, p!(y, b!(z), x), y)), 1 => { let i = b!(z); end(b, div!(x, p!(y, i, x), y)) } 2 => { let i = p!(y, b!(z), x); end(b, div!(x, i, y)) } _ => { let i = b!(z); let j = p!(y, i, x); let k = div!(x, j, y); end(b, k) } } }
    h_18_siblings(b) { let x = t(1); let y = t(1); w!["<ul><li>", [x], "</li><li>", [y], "</li><li>s</li></ul>"]; match choose(4) { 0 => end(b, ul!(li!(x), li!(y), li!("s"))), 1 => { let l = li!(x); end(b, ul!(l, li!(y), li!("s"))) } 2 => { let l = li!(y); end(b, ul!(li!(x), l, li!("s"))) } _ => { let l = li!("s"); let m = li!(y); let n = li!(x); end(b, ul!(n, m, l)) } } }
    h_18_deep(b) { let x = t(1); let y = t(1); w!["<a>", [x], "<b><i>", [y], "<u><s>", [x], "<p><q>", [y], "</q></p></s></u></i></b></a>"];
        match choose(6) { 0 => end(b, a!(x, b!(i!(y, u!(s!(x, p!(q!(y)))))))), 1 => { let e = q!(y); end(b, a!(x, b!(i!(y, u!(s!(x, p!(e))))))) } 2 => { let e = s!(x, p!(q!(y))); end(b, a!(x, b!(i!(y, u!(e))))) } 3 => { let e = u!(s!(x, p!(q!(y)))); end(b, a!(x, b!(i!(y, e)))) } 4 => { let e = b!(i!(y, u!(s!(x, p!(q!(y)))))); end(b, a!(x, e)) } _ => { let e = q!(y); let e = p!(e); let e = s!(x, e); let e = u!(e); let e = i!(y, e); let e = b!(e); end(b, a!(x, e)) } } }
    h_18_frag(b) { let x = t(1); let y = t(1); w!["<p>1", [x], "2", [y], "3</p>"]; match choose(3) { 0 => end(b, p!("1", frag!(x, "2", y), "3")), 1 => { let f = frag!(x, "2", y); end(b, p!("1", f, "3")) } _ => { let f = frag!("1", frag!(x, "2"), y, "3"); end(b, p!(f)) } } }
    h_18_frag_elements(b) { let x = t(1); let y = t(1); w!["<p><i>", [x], "</i><b>", [y], "</b><br></p>"]; match choose(3) { 0 => end(b, p!(frag!(i!(x), frag!(b!(y), br!())))), 1 => { let f = frag!(b!(y), br!()); end(b, p!(frag!(i!(x), f))) } _ => { let i = i!(x); let f = frag!(b!(y), br!()); let g = frag!(i, f); end(b, p!(g)) } } }
    h_18_frag_top(b) { let x = t(1); w!["<i>", [x], "</i>", [x], "<i></i>"]; match choose(2) { 0 => end(b, frag!(i!(x), x, i!())), _ => { let i = i!(x); let j = i!(); end(b, frag!(i, x, j)) } } }
    h_18_classes(b) { let x = t(1); let y = t(1); w!["<p>a ", [x], " ", [y], "</p>"]; match choose(2) { 0 => end(b, p!(classes!("a", x, y))), _ => { let c = classes!("a", x, y); end(b, p!(c)) } } }
    h_18_classes_nest(b) { let x = t(1); let y = t(1); w!["a <i>", [x], "</i> b ", [y], " c", [x], " d"]; match choose(3) { 0 => end(b, classes!("a", i!(x), classes!("b", y), frag!("c", x), "d")), 1 => { let i = i!(x); let c = classes!("b", y); let f = frag!("c", x); end(b, classes!("a", i, c, f, "d")) } _ => { let c = classes!("b", y); end(b, classes!("a", i!(x), c, frag!("c", x), "d")) } } }
    h_18_frag_classes(b) { let x = t(1); let y = t(1); w!["<p>", [x], " ", [y], "<b>", [x], "</b>", [y], "</p>"]; match choose(2) { 0 => end(b, p!(classes!(x, y), frag!(b!(x), y))), _ => { let c = classes!(x, y); let f = frag!(b!(x), y); end(b, p!(c, f)) } } }
    h_18_classes_in_frag_in_classes(b) { let x = t(1); let y = t(1); w![[x], " ", [y], "z ", [x], [y], " ", [x]]; match choose(2) { 0 => end(b, classes!(x, frag!(y, classes!("z", x), y), x)), _ => { let c = classes!("z", x); let f = frag!(y, c, y); end(b, classes!(x, f, x)) } } }
    h_18_empty(b) { let x = t(1); w!["<p><i></i>", [x], "<b></b></p>"]; match choose(2) { 0 => end(b, p!(frag!(), i!(), x, classes!(), b!(frag!()))), _ => { let f = frag!(); let g = classes!(); let i = i!(); let h = frag!(); let c = b!(h); end(b, p!(f, i, x, g, c)) } } }
    h_18_mixed_exprs(b) { let x = t(1); let y = t(1); let k = bool_(); w!["<div>", [x], "<p>"]; if k { esc(y) } w!["<i>", [x], [y], "</i></p><ul><li>", [x], "</li><li>", [y], "</li></ul></div>"];
        match choose(2) { 0 => end(b, div!(x, p!(if k { Some(y) } else { None }, i!(iter!([x, y]))), ul!(iter!([x, y].into_iter().map(|v| li!(v)))))), _ => { let o = if k { Some(y) } else { None }; let it = iter!([x, y]); let i = i!(it); let p = p!(o, i); let l = iter!([x, y].into_iter().map(|v| li!(v))); let u = ul!(l); end(b, div!(x, p, u)) } } }
    h_18_attr_owner(b) { let x = t(1); let y = t(1); w!["<div class=\"a ", [x], "\" id=\"", [y], "\"><p class=\"", [y], " b\">", [x], "</p></div>"];
        match choose(3) { 0 => end(b, div!(p!(x, class = classes!(y, "b")), class = classes!("a", x), id = y)), 1 => { let c = classes!("a", x); let d = classes!(y, "b"); end(b, div!(class = c, p!(class = d, x), id = y)) } _ => { let d = p!(x, class = classes!(y, "b")); end(b, div!(class = classes!("a", x), id = { y }, d)) } } }
    h_18_forms(b) { let x = t(1); w!["<p><i>", [x], "</i></p>"]; match choose(7) { 0 => end(b, p!(i!(x))), 1 => end(b, p!(i!{x})), 2 => end(b, p!(i![x])), 3 => end(b, p![{ i!(x) }]), 4 => end(b, p!((i!(x)))), 5 => end(b, p!(laby::i!(x))), _ => end(b, p!(super_same!(x))) } }
    h_18_option(b) { let x = t(1); let k = bool_(); w!["<p>"]; if k { w!["<i>", [x], "</i>"] } w!["</p>"]; match choose(2) { 0 => end(b, p!(if k { Some(i!(x)) } else { None })), _ => { let i = i!(x); end(b, p!(Some(i).filter(|_| k))) } } }
    h_18_function(b) { let x = t(1); let y = t(1); fn wrap(c: impl Render, x: &'static str) -> impl Render { p!(id = x, c) } w!["<p id=\"", [x], "\"><p id=\"", [y], "\"><i>", [x], "</i></p></p>"]; match choose(3) { 0 => end(b, wrap(wrap(i!(x), y), x)), 1 => end(b, p!(p!(i!(x), id = y), id = x)), _ => end(b, p!(id = x, wrap(i!(x), y))) } }
    h_18_bool_owner(b) { let k = bool_(); let l = bool_(); let x = t(1); w!["<div"]; if k { lit(" a") } w!["><p"]; if l { lit(" "); esc(x) } w![">", [x], "</p></div>"]; match choose(2) { 0 => end(b, div!(p!(x, { x } = bool!(l)), a = bool!(k))), _ => { let p = p!({ x } = bool!(l), x); end(b, div!(a = bool!(k), p)) } } }
    h_18_wide(b) { let x = t(1); let y = t(1); w!["<tr>"]; for _ in 0..3 { w!["<td a=\"", [x], "\">", [y], "</td><td>", [x], "</td>"] } w!["</tr>"];
        match choose(2) { 0 => end(b, tr!(td!(y, a = x), td!(x), td!(y, a = x), td!(x), td!(a = x, y), td!(x))), _ => { let c = td!(x); let d = td!(y, a = x); let e = td!(x); end(b, tr!(td!(y, a = x), c, d, e, td!(y, a = x), td!(x))) } } }
    h_18_delim_iter(b) { let x = t(1); w!["<ul><li>", [x], "</li>, <li>2</li></ul>"]; match choose(2) { 0 => end(b, ul!(iter!(", ", [Some(li!(x)), None].into_iter().flatten().map(|l| frag!(l, ""))), ", ", li!(2))), _ => { let l = li!(2); let m = li!(x); end(b, ul!(m, ", ", l)) } } }
}


/// every tag inline in every position kind against the same element in a variable
macro_rules! tags { (($($n:ident)*) ($($v:ident)*)) => {
    const N: usize = [$(stringify!($n)),*].len(); const M: usize = [$(stringify!($v)),*].len();
    fn normal(i: usize, b: Buffer) { let mut k = 0; $( if i == k { return nor::$n(b) } k += 1; )* }
    fn voids(i: usize, b: Buffer) { let mut k = 0; $( if i == k { return voi::$v(b) } k += 1; )* }
    mod nor { use crate::pre::*; use laby::*; $( pub fn $n(buf: Buffer) { let n = stringify!($n); let x = t(1); let y = t(1);
        w!["<div>", [x], "<", (n), " k=\"", [y], "\">", [x], "<", (n), "></", (n), "></", (n), ">", [y], " ", "<", (n), ">", [x], "</", (n), "></div>"];
        if choose(2) == 0 { end(buf, div!(x, $n!(x, $n!(), k = y), classes!(y, $n!(x)))) } else { let e = $n!(); let e = $n!(k = y, x, e); let f = $n!(x); let c = classes!(y, f); end(buf, div!(x, e, c)) } } )* }
    mod voi { use crate::pre::*; use laby::*; $( pub fn $v(buf: Buffer) { let n = stringify!($v); let x = t(1); let y = t(1); let k = bool_();
        w!["<div>", [x], "<", (n), " k=\"", [y], "\"", (if k { " on" } else { "" }), ">", [x], " ", "<", (n), ">", [y], "</div>"];
        if choose(2) == 0 { end(buf, div!(x, $v!(k = y, on = bool!(k)), classes!(x, $v!()), y)) } else { let e = $v!(k = y, on = bool!(k)); let f = $v!(); let c = classes!(x, f); end(buf, div!(x, e, c, y)) } } )* }
} }
tags! { (a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul var video) (area base br col embed hr img input link meta param source track wbr) }
#[no_mangle] pub fn h_18_normal() { let b = start(p(0), p(1)); normal(choose(N), b); check(live() == 0, 2) }
#[no_mangle] pub fn h_18_voids() { let b = start(p(0), p(1)); voids(choose(M), b); check(live() == 0, 2) }
