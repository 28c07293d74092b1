//! literals (written by tools/gen22.py)
use crate::pre::*;
use laby::*;
macro_rules! via { ($e:expr) => { p!($e) } }
#[allow(overflowing_literals)]
mod all { use crate::pre::*; use laby::*; case! {
    h_22_l000(b) { let w = ""; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "", "b", "")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((""), (("")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "" }, ({ ("") }), a = { "" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("", x, "")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(""), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("" = bool!(k), ("") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "" }, x)) }
        13 => { lit(w); end(b, "") }
        14 => { let v = ""; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = ""; let c = b!(v); let v = ""; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("")) }
        17 => { w!["<p></p>"]; end(b, p!({ ""; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { ""; }, { { ""; } }, { ""; x }, { ""; "" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "" }, loop { break "" }, 'q: { break 'q "" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "" } else { "" }, match k { _ => "" }, (|| "")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(""), [""][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["", ""])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("") } else { frag!(p!({ "" })) }), "")) }
    } }
    h_22_l001(b) { let w = "a"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("a")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("a")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "a", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "a", "b", "a")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "a", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("a"), (("a")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "a" }, ({ ("a") }), a = { "a" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("a", x, "a")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("a"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("a" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("a" = bool!(k), ("a") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("a")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "a" }, x)) }
        13 => { lit(w); end(b, "a") }
        14 => { let v = "a"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "a"; let c = b!(v); let v = "a"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("a")) }
        17 => { w!["<p></p>"]; end(b, p!({ "a"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "a"; }, { { "a"; } }, { "a"; x }, { "a"; "a" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "a" }, loop { break "a" }, 'q: { break 'q "a" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "a" } else { "a" }, match k { _ => "a" }, (|| "a")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("a"), ["a"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["a", "a"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("a") } else { frag!(p!({ "a" })) }), "a")) }
    } }
    h_22_l002(b) { let w = "&lt;&gt;&amp;&quot;&#39;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("<>&\"'")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("<>&\"'")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "<>&\"'", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "<>&\"'", "b", "<>&\"'")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "<>&\"'", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("<>&\"'"), (("<>&\"'")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "<>&\"'" }, ({ ("<>&\"'") }), a = { "<>&\"'" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("<>&\"'", x, "<>&\"'")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("<>&\"'"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("<>&\"'" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("<>&\"'" = bool!(k), ("<>&\"'") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("<>&\"'")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "<>&\"'" }, x)) }
        13 => { lit(w); end(b, "<>&\"'") }
        14 => { let v = "<>&\"'"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "<>&\"'"; let c = b!(v); let v = "<>&\"'"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("<>&\"'")) }
        17 => { w!["<p></p>"]; end(b, p!({ "<>&\"'"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "<>&\"'"; }, { { "<>&\"'"; } }, { "<>&\"'"; x }, { "<>&\"'"; "<>&\"'" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "<>&\"'" }, loop { break "<>&\"'" }, 'q: { break 'q "<>&\"'" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "<>&\"'" } else { "<>&\"'" }, match k { _ => "<>&\"'" }, (|| "<>&\"'")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("<>&\"'"), ["<>&\"'"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["<>&\"'", "<>&\"'"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("<>&\"'") } else { frag!(p!({ "<>&\"'" })) }), "<>&\"'")) }
    } }
    h_22_l003(b) { let w = "a\u{a}b\u{9}c\\"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("a\nb\tc\\")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("a\nb\tc\\")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "a\nb\tc\\", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "a\nb\tc\\", "b", "a\nb\tc\\")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "a\nb\tc\\", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("a\nb\tc\\"), (("a\nb\tc\\")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "a\nb\tc\\" }, ({ ("a\nb\tc\\") }), a = { "a\nb\tc\\" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("a\nb\tc\\", x, "a\nb\tc\\")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("a\nb\tc\\"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("a\nb\tc\\" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("a\nb\tc\\" = bool!(k), ("a\nb\tc\\") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("a\nb\tc\\")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "a\nb\tc\\" }, x)) }
        13 => { lit(w); end(b, "a\nb\tc\\") }
        14 => { let v = "a\nb\tc\\"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "a\nb\tc\\"; let c = b!(v); let v = "a\nb\tc\\"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("a\nb\tc\\")) }
        17 => { w!["<p></p>"]; end(b, p!({ "a\nb\tc\\"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "a\nb\tc\\"; }, { { "a\nb\tc\\"; } }, { "a\nb\tc\\"; x }, { "a\nb\tc\\"; "a\nb\tc\\" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "a\nb\tc\\" }, loop { break "a\nb\tc\\" }, 'q: { break 'q "a\nb\tc\\" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "a\nb\tc\\" } else { "a\nb\tc\\" }, match k { _ => "a\nb\tc\\" }, (|| "a\nb\tc\\")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("a\nb\tc\\"), ["a\nb\tc\\"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["a\nb\tc\\", "a\nb\tc\\"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("a\nb\tc\\") } else { frag!(p!({ "a\nb\tc\\" })) }), "a\nb\tc\\")) }
    } }
    h_22_l004(b) { let w = "\u{1f600}é"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{1f600}é")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{1f600}é")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{1f600}é", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{1f600}é", "b", "\u{1f600}é")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{1f600}é", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{1f600}é"), (("\u{1f600}é")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{1f600}é" }, ({ ("\u{1f600}é") }), a = { "\u{1f600}é" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{1f600}é", x, "\u{1f600}é")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{1f600}é"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{1f600}é" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{1f600}é" = bool!(k), ("\u{1f600}é") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{1f600}é")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{1f600}é" }, x)) }
        13 => { lit(w); end(b, "\u{1f600}é") }
        14 => { let v = "\u{1f600}é"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{1f600}é"; let c = b!(v); let v = "\u{1f600}é"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{1f600}é")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{1f600}é"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{1f600}é"; }, { { "\u{1f600}é"; } }, { "\u{1f600}é"; x }, { "\u{1f600}é"; "\u{1f600}é" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{1f600}é" }, loop { break "\u{1f600}é" }, 'q: { break 'q "\u{1f600}é" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{1f600}é" } else { "\u{1f600}é" }, match k { _ => "\u{1f600}é" }, (|| "\u{1f600}é")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{1f600}é"), ["\u{1f600}é"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{1f600}é", "\u{1f600}é"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{1f600}é") } else { frag!(p!({ "\u{1f600}é" })) }), "\u{1f600}é")) }
    } }
    h_22_l005(b) { let w = "raw\\n&lt;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(r"raw\n<")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(r"raw\n<")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, r"raw\n<", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", r"raw\n<", "b", r"raw\n<")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = r"raw\n<", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((r"raw\n<"), ((r"raw\n<")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ r"raw\n<" }, ({ (r"raw\n<") }), a = { r"raw\n<" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(r"raw\n<", x, r"raw\n<")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(r"raw\n<"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(r"raw\n<" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(r"raw\n<" = bool!(k), (r"raw\n<") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(r"raw\n<")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; r"raw\n<" }, x)) }
        13 => { lit(w); end(b, r"raw\n<") }
        14 => { let v = r"raw\n<"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = r"raw\n<"; let c = b!(v); let v = r"raw\n<"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(r"raw\n<")) }
        17 => { w!["<p></p>"]; end(b, p!({ r"raw\n<"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { r"raw\n<"; }, { { r"raw\n<"; } }, { r"raw\n<"; x }, { r"raw\n<"; r"raw\n<" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { r"raw\n<" }, loop { break r"raw\n<" }, 'q: { break 'q r"raw\n<" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { r"raw\n<" } else { r"raw\n<" }, match k { _ => r"raw\n<" }, (|| r"raw\n<")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(r"raw\n<"), [r"raw\n<"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [r"raw\n<", r"raw\n<"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(r"raw\n<") } else { frag!(p!({ r"raw\n<" })) }), r"raw\n<")) }
    } }
    h_22_l006(b) { let w = "a&quot;b"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(r#"a"b"#)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(r#"a"b"#)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, r#"a"b"#, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", r#"a"b"#, "b", r#"a"b"#)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = r#"a"b"#, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((r#"a"b"#), ((r#"a"b"#)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ r#"a"b"# }, ({ (r#"a"b"#) }), a = { r#"a"b"# })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(r#"a"b"#, x, r#"a"b"#)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(r#"a"b"#), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(r#"a"b"# = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(r#"a"b"# = bool!(k), (r#"a"b"#) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(r#"a"b"#)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; r#"a"b"# }, x)) }
        13 => { lit(w); end(b, r#"a"b"#) }
        14 => { let v = r#"a"b"#; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = r#"a"b"#; let c = b!(v); let v = r#"a"b"#; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(r#"a"b"#)) }
        17 => { w!["<p></p>"]; end(b, p!({ r#"a"b"#; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { r#"a"b"#; }, { { r#"a"b"#; } }, { r#"a"b"#; x }, { r#"a"b"#; r#"a"b"# })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { r#"a"b"# }, loop { break r#"a"b"# }, 'q: { break 'q r#"a"b"# })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { r#"a"b"# } else { r#"a"b"# }, match k { _ => r#"a"b"# }, (|| r#"a"b"#)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(r#"a"b"#), [r#"a"b"#][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [r#"a"b"#, r#"a"b"#])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(r#"a"b"#) } else { frag!(p!({ r#"a"b"# })) }), r#"a"b"#)) }
    } }
    h_22_l007(b) { let w = "continued"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("con\
      tinued")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("con\
      tinued")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "con\
      tinued", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "con\
      tinued", "b", "con\
      tinued")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "con\
      tinued", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("con\
      tinued"), (("con\
      tinued")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "con\
      tinued" }, ({ ("con\
      tinued") }), a = { "con\
      tinued" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("con\
      tinued", x, "con\
      tinued")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("con\
      tinued"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("con\
      tinued" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("con\
      tinued" = bool!(k), ("con\
      tinued") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("con\
      tinued")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "con\
      tinued" }, x)) }
        13 => { lit(w); end(b, "con\
      tinued") }
        14 => { let v = "con\
      tinued"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "con\
      tinued"; let c = b!(v); let v = "con\
      tinued"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("con\
      tinued")) }
        17 => { w!["<p></p>"]; end(b, p!({ "con\
      tinued"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "con\
      tinued"; }, { { "con\
      tinued"; } }, { "con\
      tinued"; x }, { "con\
      tinued"; "con\
      tinued" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "con\
      tinued" }, loop { break "con\
      tinued" }, 'q: { break 'q "con\
      tinued" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "con\
      tinued" } else { "con\
      tinued" }, match k { _ => "con\
      tinued" }, (|| "con\
      tinued")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("con\
      tinued"), ["con\
      tinued"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["con\
      tinued", "con\
      tinued"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("con\
      tinued") } else { frag!(p!({ "con\
      tinued" })) }), "con\
      tinued")) }
    } }
    h_22_l008(b) { let w = "\u{0}\u{7f}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\0\x7f")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\0\x7f")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\0\x7f", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\0\x7f", "b", "\0\x7f")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\0\x7f", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\0\x7f"), (("\0\x7f")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\0\x7f" }, ({ ("\0\x7f") }), a = { "\0\x7f" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\0\x7f", x, "\0\x7f")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\0\x7f"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\0\x7f" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\0\x7f" = bool!(k), ("\0\x7f") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\0\x7f")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\0\x7f" }, x)) }
        13 => { lit(w); end(b, "\0\x7f") }
        14 => { let v = "\0\x7f"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\0\x7f"; let c = b!(v); let v = "\0\x7f"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\0\x7f")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\0\x7f"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\0\x7f"; }, { { "\0\x7f"; } }, { "\0\x7f"; x }, { "\0\x7f"; "\0\x7f" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\0\x7f" }, loop { break "\0\x7f" }, 'q: { break 'q "\0\x7f" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\0\x7f" } else { "\0\x7f" }, match k { _ => "\0\x7f" }, (|| "\0\x7f")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\0\x7f"), ["\0\x7f"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\0\x7f", "\0\x7f"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\0\x7f") } else { frag!(p!({ "\0\x7f" })) }), "\0\x7f")) }
    } }
    h_22_l009(b) { let w = "&amp;amp;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("&amp;")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("&amp;")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "&amp;", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "&amp;", "b", "&amp;")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "&amp;", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("&amp;"), (("&amp;")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "&amp;" }, ({ ("&amp;") }), a = { "&amp;" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("&amp;", x, "&amp;")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("&amp;"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("&amp;" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("&amp;" = bool!(k), ("&amp;") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("&amp;")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "&amp;" }, x)) }
        13 => { lit(w); end(b, "&amp;") }
        14 => { let v = "&amp;"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "&amp;"; let c = b!(v); let v = "&amp;"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("&amp;")) }
        17 => { w!["<p></p>"]; end(b, p!({ "&amp;"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "&amp;"; }, { { "&amp;"; } }, { "&amp;"; x }, { "&amp;"; "&amp;" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "&amp;" }, loop { break "&amp;" }, 'q: { break 'q "&amp;" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "&amp;" } else { "&amp;" }, match k { _ => "&amp;" }, (|| "&amp;")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("&amp;"), ["&amp;"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["&amp;", "&amp;"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("&amp;") } else { frag!(p!({ "&amp;" })) }), "&amp;")) }
    } }
    h_22_l010(b) { let w = "0123456789abcdef0123456789abcdef01&lt;23456789"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("0123456789abcdef0123456789abcdef01<23456789")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("0123456789abcdef0123456789abcdef01<23456789")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "0123456789abcdef0123456789abcdef01<23456789", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "0123456789abcdef0123456789abcdef01<23456789", "b", "0123456789abcdef0123456789abcdef01<23456789")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "0123456789abcdef0123456789abcdef01<23456789", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("0123456789abcdef0123456789abcdef01<23456789"), (("0123456789abcdef0123456789abcdef01<23456789")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "0123456789abcdef0123456789abcdef01<23456789" }, ({ ("0123456789abcdef0123456789abcdef01<23456789") }), a = { "0123456789abcdef0123456789abcdef01<23456789" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("0123456789abcdef0123456789abcdef01<23456789", x, "0123456789abcdef0123456789abcdef01<23456789")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("0123456789abcdef0123456789abcdef01<23456789"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("0123456789abcdef0123456789abcdef01<23456789" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("0123456789abcdef0123456789abcdef01<23456789" = bool!(k), ("0123456789abcdef0123456789abcdef01<23456789") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("0123456789abcdef0123456789abcdef01<23456789")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "0123456789abcdef0123456789abcdef01<23456789" }, x)) }
        13 => { lit(w); end(b, "0123456789abcdef0123456789abcdef01<23456789") }
        14 => { let v = "0123456789abcdef0123456789abcdef01<23456789"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "0123456789abcdef0123456789abcdef01<23456789"; let c = b!(v); let v = "0123456789abcdef0123456789abcdef01<23456789"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("0123456789abcdef0123456789abcdef01<23456789")) }
        17 => { w!["<p></p>"]; end(b, p!({ "0123456789abcdef0123456789abcdef01<23456789"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "0123456789abcdef0123456789abcdef01<23456789"; }, { { "0123456789abcdef0123456789abcdef01<23456789"; } }, { "0123456789abcdef0123456789abcdef01<23456789"; x }, { "0123456789abcdef0123456789abcdef01<23456789"; "0123456789abcdef0123456789abcdef01<23456789" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "0123456789abcdef0123456789abcdef01<23456789" }, loop { break "0123456789abcdef0123456789abcdef01<23456789" }, 'q: { break 'q "0123456789abcdef0123456789abcdef01<23456789" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "0123456789abcdef0123456789abcdef01<23456789" } else { "0123456789abcdef0123456789abcdef01<23456789" }, match k { _ => "0123456789abcdef0123456789abcdef01<23456789" }, (|| "0123456789abcdef0123456789abcdef01<23456789")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("0123456789abcdef0123456789abcdef01<23456789"), ["0123456789abcdef0123456789abcdef01<23456789"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["0123456789abcdef0123456789abcdef01<23456789", "0123456789abcdef0123456789abcdef01<23456789"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("0123456789abcdef0123456789abcdef01<23456789") } else { frag!(p!({ "0123456789abcdef0123456789abcdef01<23456789" })) }), "0123456789abcdef0123456789abcdef01<23456789")) }
    } }
    h_22_l011(b) { let w = "&#39;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("'")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("'")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "'", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "'", "b", "'")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "'", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("'"), (("'")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "'" }, ({ ("'") }), a = { "'" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("'", x, "'")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("'"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("'" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("'" = bool!(k), ("'") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("'")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "'" }, x)) }
        13 => { lit(w); end(b, "'") }
        14 => { let v = "'"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "'"; let c = b!(v); let v = "'"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("'")) }
        17 => { w!["<p></p>"]; end(b, p!({ "'"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "'"; }, { { "'"; } }, { "'"; x }, { "'"; "'" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "'" }, loop { break "'" }, 'q: { break 'q "'" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "'" } else { "'" }, match k { _ => "'" }, (|| "'")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("'"), ["'"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["'", "'"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("'") } else { frag!(p!({ "'" })) }), "'")) }
    } }
    h_22_l012(b) { let w = " "; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(" ")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(" ")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, " ", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", " ", "b", " ")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = " ", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((" "), ((" ")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ " " }, ({ (" ") }), a = { " " })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(" ", x, " ")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(" "), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(" " = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(" " = bool!(k), (" ") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(" ")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; " " }, x)) }
        13 => { lit(w); end(b, " ") }
        14 => { let v = " "; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = " "; let c = b!(v); let v = " "; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(" ")) }
        17 => { w!["<p></p>"]; end(b, p!({ " "; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { " "; }, { { " "; } }, { " "; x }, { " "; " " })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { " " }, loop { break " " }, 'q: { break 'q " " })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { " " } else { " " }, match k { _ => " " }, (|| " ")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(" "), [" "][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [" ", " "])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(" ") } else { frag!(p!({ " " })) }), " ")) }
    } }
    h_22_l013(b) { let w = "two\u{a}lines"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("two
lines")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("two
lines")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "two
lines", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "two
lines", "b", "two
lines")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "two
lines", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("two
lines"), (("two
lines")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "two
lines" }, ({ ("two
lines") }), a = { "two
lines" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("two
lines", x, "two
lines")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("two
lines"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("two
lines" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("two
lines" = bool!(k), ("two
lines") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("two
lines")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "two
lines" }, x)) }
        13 => { lit(w); end(b, "two
lines") }
        14 => { let v = "two
lines"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "two
lines"; let c = b!(v); let v = "two
lines"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("two
lines")) }
        17 => { w!["<p></p>"]; end(b, p!({ "two
lines"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "two
lines"; }, { { "two
lines"; } }, { "two
lines"; x }, { "two
lines"; "two
lines" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "two
lines" }, loop { break "two
lines" }, 'q: { break 'q "two
lines" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "two
lines" } else { "two
lines" }, match k { _ => "two
lines" }, (|| "two
lines")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("two
lines"), ["two
lines"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["two
lines", "two
lines"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("two
lines") } else { frag!(p!({ "two
lines" })) }), "two
lines")) }
    } }
    h_22_l014(b) { let w = "{}{{}}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("{}{{}}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("{}{{}}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "{}{{}}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "{}{{}}", "b", "{}{{}}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "{}{{}}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("{}{{}}"), (("{}{{}}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "{}{{}}" }, ({ ("{}{{}}") }), a = { "{}{{}}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("{}{{}}", x, "{}{{}}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("{}{{}}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("{}{{}}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("{}{{}}" = bool!(k), ("{}{{}}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("{}{{}}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "{}{{}}" }, x)) }
        13 => { lit(w); end(b, "{}{{}}") }
        14 => { let v = "{}{{}}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "{}{{}}"; let c = b!(v); let v = "{}{{}}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("{}{{}}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "{}{{}}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "{}{{}}"; }, { { "{}{{}}"; } }, { "{}{{}}"; x }, { "{}{{}}"; "{}{{}}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "{}{{}}" }, loop { break "{}{{}}" }, 'q: { break 'q "{}{{}}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "{}{{}}" } else { "{}{{}}" }, match k { _ => "{}{{}}" }, (|| "{}{{}}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("{}{{}}"), ["{}{{}}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["{}{{}}", "{}{{}}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("{}{{}}") } else { frag!(p!({ "{}{{}}" })) }), "{}{{}}")) }
    } }
    h_22_l015(b) { let w = "\u{d}\u{a}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{d}\u{a}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{d}\u{a}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{d}\u{a}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{d}\u{a}", "b", "\u{d}\u{a}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{d}\u{a}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{d}\u{a}"), (("\u{d}\u{a}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{d}\u{a}" }, ({ ("\u{d}\u{a}") }), a = { "\u{d}\u{a}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{d}\u{a}", x, "\u{d}\u{a}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{d}\u{a}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{d}\u{a}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{d}\u{a}" = bool!(k), ("\u{d}\u{a}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{d}\u{a}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{d}\u{a}" }, x)) }
        13 => { lit(w); end(b, "\u{d}\u{a}") }
        14 => { let v = "\u{d}\u{a}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{d}\u{a}"; let c = b!(v); let v = "\u{d}\u{a}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{d}\u{a}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{d}\u{a}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{d}\u{a}"; }, { { "\u{d}\u{a}"; } }, { "\u{d}\u{a}"; x }, { "\u{d}\u{a}"; "\u{d}\u{a}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{d}\u{a}" }, loop { break "\u{d}\u{a}" }, 'q: { break 'q "\u{d}\u{a}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{d}\u{a}" } else { "\u{d}\u{a}" }, match k { _ => "\u{d}\u{a}" }, (|| "\u{d}\u{a}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{d}\u{a}"), ["\u{d}\u{a}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{d}\u{a}", "\u{d}\u{a}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{d}\u{a}") } else { frag!(p!({ "\u{d}\u{a}" })) }), "\u{d}\u{a}")) }
    } }
    h_22_l016(b) { let w = "\u{d}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{d}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{d}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{d}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{d}", "b", "\u{d}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{d}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{d}"), (("\u{d}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{d}" }, ({ ("\u{d}") }), a = { "\u{d}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{d}", x, "\u{d}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{d}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{d}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{d}" = bool!(k), ("\u{d}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{d}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{d}" }, x)) }
        13 => { lit(w); end(b, "\u{d}") }
        14 => { let v = "\u{d}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{d}"; let c = b!(v); let v = "\u{d}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{d}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{d}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{d}"; }, { { "\u{d}"; } }, { "\u{d}"; x }, { "\u{d}"; "\u{d}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{d}" }, loop { break "\u{d}" }, 'q: { break 'q "\u{d}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{d}" } else { "\u{d}" }, match k { _ => "\u{d}" }, (|| "\u{d}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{d}"), ["\u{d}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{d}", "\u{d}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{d}") } else { frag!(p!({ "\u{d}" })) }), "\u{d}")) }
    } }
    h_22_l017(b) { let w = "a\u{d}\u{a}b\u{d}c\u{a}d"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("a\u{d}\u{a}b\u{d}c\u{a}d")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("a\u{d}\u{a}b\u{d}c\u{a}d")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "a\u{d}\u{a}b\u{d}c\u{a}d", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "a\u{d}\u{a}b\u{d}c\u{a}d", "b", "a\u{d}\u{a}b\u{d}c\u{a}d")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "a\u{d}\u{a}b\u{d}c\u{a}d", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("a\u{d}\u{a}b\u{d}c\u{a}d"), (("a\u{d}\u{a}b\u{d}c\u{a}d")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "a\u{d}\u{a}b\u{d}c\u{a}d" }, ({ ("a\u{d}\u{a}b\u{d}c\u{a}d") }), a = { "a\u{d}\u{a}b\u{d}c\u{a}d" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("a\u{d}\u{a}b\u{d}c\u{a}d", x, "a\u{d}\u{a}b\u{d}c\u{a}d")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("a\u{d}\u{a}b\u{d}c\u{a}d"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("a\u{d}\u{a}b\u{d}c\u{a}d" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("a\u{d}\u{a}b\u{d}c\u{a}d" = bool!(k), ("a\u{d}\u{a}b\u{d}c\u{a}d") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("a\u{d}\u{a}b\u{d}c\u{a}d")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "a\u{d}\u{a}b\u{d}c\u{a}d" }, x)) }
        13 => { lit(w); end(b, "a\u{d}\u{a}b\u{d}c\u{a}d") }
        14 => { let v = "a\u{d}\u{a}b\u{d}c\u{a}d"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "a\u{d}\u{a}b\u{d}c\u{a}d"; let c = b!(v); let v = "a\u{d}\u{a}b\u{d}c\u{a}d"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("a\u{d}\u{a}b\u{d}c\u{a}d")) }
        17 => { w!["<p></p>"]; end(b, p!({ "a\u{d}\u{a}b\u{d}c\u{a}d"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "a\u{d}\u{a}b\u{d}c\u{a}d"; }, { { "a\u{d}\u{a}b\u{d}c\u{a}d"; } }, { "a\u{d}\u{a}b\u{d}c\u{a}d"; x }, { "a\u{d}\u{a}b\u{d}c\u{a}d"; "a\u{d}\u{a}b\u{d}c\u{a}d" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "a\u{d}\u{a}b\u{d}c\u{a}d" }, loop { break "a\u{d}\u{a}b\u{d}c\u{a}d" }, 'q: { break 'q "a\u{d}\u{a}b\u{d}c\u{a}d" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "a\u{d}\u{a}b\u{d}c\u{a}d" } else { "a\u{d}\u{a}b\u{d}c\u{a}d" }, match k { _ => "a\u{d}\u{a}b\u{d}c\u{a}d" }, (|| "a\u{d}\u{a}b\u{d}c\u{a}d")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("a\u{d}\u{a}b\u{d}c\u{a}d"), ["a\u{d}\u{a}b\u{d}c\u{a}d"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["a\u{d}\u{a}b\u{d}c\u{a}d", "a\u{d}\u{a}b\u{d}c\u{a}d"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("a\u{d}\u{a}b\u{d}c\u{a}d") } else { frag!(p!({ "a\u{d}\u{a}b\u{d}c\u{a}d" })) }), "a\u{d}\u{a}b\u{d}c\u{a}d")) }
    } }
    h_22_l018(b) { let w = "\u{a}\u{d}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{a}\u{d}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{a}\u{d}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{a}\u{d}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{a}\u{d}", "b", "\u{a}\u{d}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{a}\u{d}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{a}\u{d}"), (("\u{a}\u{d}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{a}\u{d}" }, ({ ("\u{a}\u{d}") }), a = { "\u{a}\u{d}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{a}\u{d}", x, "\u{a}\u{d}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{a}\u{d}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{a}\u{d}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{a}\u{d}" = bool!(k), ("\u{a}\u{d}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{a}\u{d}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{a}\u{d}" }, x)) }
        13 => { lit(w); end(b, "\u{a}\u{d}") }
        14 => { let v = "\u{a}\u{d}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{a}\u{d}"; let c = b!(v); let v = "\u{a}\u{d}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{a}\u{d}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{a}\u{d}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{a}\u{d}"; }, { { "\u{a}\u{d}"; } }, { "\u{a}\u{d}"; x }, { "\u{a}\u{d}"; "\u{a}\u{d}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{a}\u{d}" }, loop { break "\u{a}\u{d}" }, 'q: { break 'q "\u{a}\u{d}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{a}\u{d}" } else { "\u{a}\u{d}" }, match k { _ => "\u{a}\u{d}" }, (|| "\u{a}\u{d}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{a}\u{d}"), ["\u{a}\u{d}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{a}\u{d}", "\u{a}\u{d}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{a}\u{d}") } else { frag!(p!({ "\u{a}\u{d}" })) }), "\u{a}\u{d}")) }
    } }
    h_22_l019(b) { let w = "\u{a}\u{a}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{a}\u{a}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{a}\u{a}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{a}\u{a}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{a}\u{a}", "b", "\u{a}\u{a}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{a}\u{a}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{a}\u{a}"), (("\u{a}\u{a}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{a}\u{a}" }, ({ ("\u{a}\u{a}") }), a = { "\u{a}\u{a}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{a}\u{a}", x, "\u{a}\u{a}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{a}\u{a}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{a}\u{a}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{a}\u{a}" = bool!(k), ("\u{a}\u{a}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{a}\u{a}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{a}\u{a}" }, x)) }
        13 => { lit(w); end(b, "\u{a}\u{a}") }
        14 => { let v = "\u{a}\u{a}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{a}\u{a}"; let c = b!(v); let v = "\u{a}\u{a}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{a}\u{a}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{a}\u{a}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{a}\u{a}"; }, { { "\u{a}\u{a}"; } }, { "\u{a}\u{a}"; x }, { "\u{a}\u{a}"; "\u{a}\u{a}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{a}\u{a}" }, loop { break "\u{a}\u{a}" }, 'q: { break 'q "\u{a}\u{a}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{a}\u{a}" } else { "\u{a}\u{a}" }, match k { _ => "\u{a}\u{a}" }, (|| "\u{a}\u{a}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{a}\u{a}"), ["\u{a}\u{a}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{a}\u{a}", "\u{a}\u{a}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{a}\u{a}") } else { frag!(p!({ "\u{a}\u{a}" })) }), "\u{a}\u{a}")) }
    } }
    h_22_l020(b) { let w = "\u{b}\u{c}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{b}\u{c}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{b}\u{c}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{b}\u{c}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{b}\u{c}", "b", "\u{b}\u{c}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{b}\u{c}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{b}\u{c}"), (("\u{b}\u{c}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{b}\u{c}" }, ({ ("\u{b}\u{c}") }), a = { "\u{b}\u{c}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{b}\u{c}", x, "\u{b}\u{c}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{b}\u{c}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{b}\u{c}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{b}\u{c}" = bool!(k), ("\u{b}\u{c}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{b}\u{c}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{b}\u{c}" }, x)) }
        13 => { lit(w); end(b, "\u{b}\u{c}") }
        14 => { let v = "\u{b}\u{c}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{b}\u{c}"; let c = b!(v); let v = "\u{b}\u{c}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{b}\u{c}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{b}\u{c}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{b}\u{c}"; }, { { "\u{b}\u{c}"; } }, { "\u{b}\u{c}"; x }, { "\u{b}\u{c}"; "\u{b}\u{c}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{b}\u{c}" }, loop { break "\u{b}\u{c}" }, 'q: { break 'q "\u{b}\u{c}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{b}\u{c}" } else { "\u{b}\u{c}" }, match k { _ => "\u{b}\u{c}" }, (|| "\u{b}\u{c}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{b}\u{c}"), ["\u{b}\u{c}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{b}\u{c}", "\u{b}\u{c}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{b}\u{c}") } else { frag!(p!({ "\u{b}\u{c}" })) }), "\u{b}\u{c}")) }
    } }
    h_22_l021(b) { let w = "\u{2028}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{2028}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{2028}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{2028}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{2028}", "b", "\u{2028}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{2028}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{2028}"), (("\u{2028}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{2028}" }, ({ ("\u{2028}") }), a = { "\u{2028}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{2028}", x, "\u{2028}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{2028}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{2028}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{2028}" = bool!(k), ("\u{2028}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{2028}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{2028}" }, x)) }
        13 => { lit(w); end(b, "\u{2028}") }
        14 => { let v = "\u{2028}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{2028}"; let c = b!(v); let v = "\u{2028}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{2028}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{2028}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{2028}"; }, { { "\u{2028}"; } }, { "\u{2028}"; x }, { "\u{2028}"; "\u{2028}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{2028}" }, loop { break "\u{2028}" }, 'q: { break 'q "\u{2028}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{2028}" } else { "\u{2028}" }, match k { _ => "\u{2028}" }, (|| "\u{2028}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{2028}"), ["\u{2028}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{2028}", "\u{2028}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{2028}") } else { frag!(p!({ "\u{2028}" })) }), "\u{2028}")) }
    } }
    h_22_l022(b) { let w = "\u{2029}x"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{2029}x")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{2029}x")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{2029}x", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{2029}x", "b", "\u{2029}x")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{2029}x", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{2029}x"), (("\u{2029}x")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{2029}x" }, ({ ("\u{2029}x") }), a = { "\u{2029}x" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{2029}x", x, "\u{2029}x")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{2029}x"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{2029}x" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{2029}x" = bool!(k), ("\u{2029}x") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{2029}x")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{2029}x" }, x)) }
        13 => { lit(w); end(b, "\u{2029}x") }
        14 => { let v = "\u{2029}x"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{2029}x"; let c = b!(v); let v = "\u{2029}x"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{2029}x")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{2029}x"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{2029}x"; }, { { "\u{2029}x"; } }, { "\u{2029}x"; x }, { "\u{2029}x"; "\u{2029}x" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{2029}x" }, loop { break "\u{2029}x" }, 'q: { break 'q "\u{2029}x" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{2029}x" } else { "\u{2029}x" }, match k { _ => "\u{2029}x" }, (|| "\u{2029}x")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{2029}x"), ["\u{2029}x"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{2029}x", "\u{2029}x"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{2029}x") } else { frag!(p!({ "\u{2029}x" })) }), "\u{2029}x")) }
    } }
    h_22_l023(b) { let w = "\u{85}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{85}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{85}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{85}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{85}", "b", "\u{85}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{85}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{85}"), (("\u{85}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{85}" }, ({ ("\u{85}") }), a = { "\u{85}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{85}", x, "\u{85}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{85}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{85}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{85}" = bool!(k), ("\u{85}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{85}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{85}" }, x)) }
        13 => { lit(w); end(b, "\u{85}") }
        14 => { let v = "\u{85}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{85}"; let c = b!(v); let v = "\u{85}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{85}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{85}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{85}"; }, { { "\u{85}"; } }, { "\u{85}"; x }, { "\u{85}"; "\u{85}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{85}" }, loop { break "\u{85}" }, 'q: { break 'q "\u{85}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{85}" } else { "\u{85}" }, match k { _ => "\u{85}" }, (|| "\u{85}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{85}"), ["\u{85}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{85}", "\u{85}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{85}") } else { frag!(p!({ "\u{85}" })) }), "\u{85}")) }
    } }
    h_22_l024(b) { let w = "\u{a0}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{a0}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{a0}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{a0}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{a0}", "b", "\u{a0}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{a0}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{a0}"), (("\u{a0}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{a0}" }, ({ ("\u{a0}") }), a = { "\u{a0}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{a0}", x, "\u{a0}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{a0}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{a0}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{a0}" = bool!(k), ("\u{a0}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{a0}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{a0}" }, x)) }
        13 => { lit(w); end(b, "\u{a0}") }
        14 => { let v = "\u{a0}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{a0}"; let c = b!(v); let v = "\u{a0}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{a0}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{a0}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{a0}"; }, { { "\u{a0}"; } }, { "\u{a0}"; x }, { "\u{a0}"; "\u{a0}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{a0}" }, loop { break "\u{a0}" }, 'q: { break 'q "\u{a0}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{a0}" } else { "\u{a0}" }, match k { _ => "\u{a0}" }, (|| "\u{a0}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{a0}"), ["\u{a0}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{a0}", "\u{a0}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{a0}") } else { frag!(p!({ "\u{a0}" })) }), "\u{a0}")) }
    } }
    h_22_l025(b) { let w = "\u{200b}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{200b}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{200b}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{200b}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{200b}", "b", "\u{200b}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{200b}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{200b}"), (("\u{200b}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{200b}" }, ({ ("\u{200b}") }), a = { "\u{200b}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{200b}", x, "\u{200b}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{200b}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{200b}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{200b}" = bool!(k), ("\u{200b}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{200b}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{200b}" }, x)) }
        13 => { lit(w); end(b, "\u{200b}") }
        14 => { let v = "\u{200b}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{200b}"; let c = b!(v); let v = "\u{200b}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{200b}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{200b}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{200b}"; }, { { "\u{200b}"; } }, { "\u{200b}"; x }, { "\u{200b}"; "\u{200b}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{200b}" }, loop { break "\u{200b}" }, 'q: { break 'q "\u{200b}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{200b}" } else { "\u{200b}" }, match k { _ => "\u{200b}" }, (|| "\u{200b}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{200b}"), ["\u{200b}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{200b}", "\u{200b}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{200b}") } else { frag!(p!({ "\u{200b}" })) }), "\u{200b}")) }
    } }
    h_22_l026(b) { let w = "\u{feff}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{feff}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{feff}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{feff}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{feff}", "b", "\u{feff}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{feff}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{feff}"), (("\u{feff}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{feff}" }, ({ ("\u{feff}") }), a = { "\u{feff}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{feff}", x, "\u{feff}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{feff}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{feff}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{feff}" = bool!(k), ("\u{feff}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{feff}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{feff}" }, x)) }
        13 => { lit(w); end(b, "\u{feff}") }
        14 => { let v = "\u{feff}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{feff}"; let c = b!(v); let v = "\u{feff}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{feff}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{feff}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{feff}"; }, { { "\u{feff}"; } }, { "\u{feff}"; x }, { "\u{feff}"; "\u{feff}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{feff}" }, loop { break "\u{feff}" }, 'q: { break 'q "\u{feff}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{feff}" } else { "\u{feff}" }, match k { _ => "\u{feff}" }, (|| "\u{feff}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{feff}"), ["\u{feff}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{feff}", "\u{feff}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{feff}") } else { frag!(p!({ "\u{feff}" })) }), "\u{feff}")) }
    } }
    h_22_l027(b) { let w = "x\u{feff}y"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("x\u{feff}y")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("x\u{feff}y")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "x\u{feff}y", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "x\u{feff}y", "b", "x\u{feff}y")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "x\u{feff}y", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("x\u{feff}y"), (("x\u{feff}y")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "x\u{feff}y" }, ({ ("x\u{feff}y") }), a = { "x\u{feff}y" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("x\u{feff}y", x, "x\u{feff}y")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("x\u{feff}y"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("x\u{feff}y" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("x\u{feff}y" = bool!(k), ("x\u{feff}y") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("x\u{feff}y")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "x\u{feff}y" }, x)) }
        13 => { lit(w); end(b, "x\u{feff}y") }
        14 => { let v = "x\u{feff}y"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "x\u{feff}y"; let c = b!(v); let v = "x\u{feff}y"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("x\u{feff}y")) }
        17 => { w!["<p></p>"]; end(b, p!({ "x\u{feff}y"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "x\u{feff}y"; }, { { "x\u{feff}y"; } }, { "x\u{feff}y"; x }, { "x\u{feff}y"; "x\u{feff}y" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "x\u{feff}y" }, loop { break "x\u{feff}y" }, 'q: { break 'q "x\u{feff}y" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "x\u{feff}y" } else { "x\u{feff}y" }, match k { _ => "x\u{feff}y" }, (|| "x\u{feff}y")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("x\u{feff}y"), ["x\u{feff}y"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["x\u{feff}y", "x\u{feff}y"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("x\u{feff}y") } else { frag!(p!({ "x\u{feff}y" })) }), "x\u{feff}y")) }
    } }
    h_22_l028(b) { let w = "\u{200d}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{200d}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{200d}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{200d}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{200d}", "b", "\u{200d}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{200d}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{200d}"), (("\u{200d}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{200d}" }, ({ ("\u{200d}") }), a = { "\u{200d}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{200d}", x, "\u{200d}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{200d}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{200d}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{200d}" = bool!(k), ("\u{200d}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{200d}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{200d}" }, x)) }
        13 => { lit(w); end(b, "\u{200d}") }
        14 => { let v = "\u{200d}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{200d}"; let c = b!(v); let v = "\u{200d}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{200d}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{200d}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{200d}"; }, { { "\u{200d}"; } }, { "\u{200d}"; x }, { "\u{200d}"; "\u{200d}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{200d}" }, loop { break "\u{200d}" }, 'q: { break 'q "\u{200d}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{200d}" } else { "\u{200d}" }, match k { _ => "\u{200d}" }, (|| "\u{200d}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{200d}"), ["\u{200d}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{200d}", "\u{200d}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{200d}") } else { frag!(p!({ "\u{200d}" })) }), "\u{200d}")) }
    } }
    h_22_l029(b) { let w = "\u{202e}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{202e}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{202e}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{202e}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{202e}", "b", "\u{202e}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{202e}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{202e}"), (("\u{202e}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{202e}" }, ({ ("\u{202e}") }), a = { "\u{202e}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{202e}", x, "\u{202e}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{202e}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{202e}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{202e}" = bool!(k), ("\u{202e}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{202e}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{202e}" }, x)) }
        13 => { lit(w); end(b, "\u{202e}") }
        14 => { let v = "\u{202e}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{202e}"; let c = b!(v); let v = "\u{202e}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{202e}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{202e}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{202e}"; }, { { "\u{202e}"; } }, { "\u{202e}"; x }, { "\u{202e}"; "\u{202e}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{202e}" }, loop { break "\u{202e}" }, 'q: { break 'q "\u{202e}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{202e}" } else { "\u{202e}" }, match k { _ => "\u{202e}" }, (|| "\u{202e}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{202e}"), ["\u{202e}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{202e}", "\u{202e}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{202e}") } else { frag!(p!({ "\u{202e}" })) }), "\u{202e}")) }
    } }
    h_22_l030(b) { let w = "\u{fffd}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{fffd}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{fffd}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{fffd}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{fffd}", "b", "\u{fffd}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{fffd}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{fffd}"), (("\u{fffd}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{fffd}" }, ({ ("\u{fffd}") }), a = { "\u{fffd}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{fffd}", x, "\u{fffd}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{fffd}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{fffd}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{fffd}" = bool!(k), ("\u{fffd}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{fffd}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{fffd}" }, x)) }
        13 => { lit(w); end(b, "\u{fffd}") }
        14 => { let v = "\u{fffd}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{fffd}"; let c = b!(v); let v = "\u{fffd}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{fffd}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{fffd}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{fffd}"; }, { { "\u{fffd}"; } }, { "\u{fffd}"; x }, { "\u{fffd}"; "\u{fffd}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{fffd}" }, loop { break "\u{fffd}" }, 'q: { break 'q "\u{fffd}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{fffd}" } else { "\u{fffd}" }, match k { _ => "\u{fffd}" }, (|| "\u{fffd}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{fffd}"), ["\u{fffd}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{fffd}", "\u{fffd}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{fffd}") } else { frag!(p!({ "\u{fffd}" })) }), "\u{fffd}")) }
    } }
    h_22_l031(b) { let w = "\u{fffe}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{fffe}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{fffe}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{fffe}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{fffe}", "b", "\u{fffe}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{fffe}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{fffe}"), (("\u{fffe}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{fffe}" }, ({ ("\u{fffe}") }), a = { "\u{fffe}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{fffe}", x, "\u{fffe}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{fffe}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{fffe}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{fffe}" = bool!(k), ("\u{fffe}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{fffe}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{fffe}" }, x)) }
        13 => { lit(w); end(b, "\u{fffe}") }
        14 => { let v = "\u{fffe}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{fffe}"; let c = b!(v); let v = "\u{fffe}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{fffe}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{fffe}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{fffe}"; }, { { "\u{fffe}"; } }, { "\u{fffe}"; x }, { "\u{fffe}"; "\u{fffe}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{fffe}" }, loop { break "\u{fffe}" }, 'q: { break 'q "\u{fffe}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{fffe}" } else { "\u{fffe}" }, match k { _ => "\u{fffe}" }, (|| "\u{fffe}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{fffe}"), ["\u{fffe}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{fffe}", "\u{fffe}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{fffe}") } else { frag!(p!({ "\u{fffe}" })) }), "\u{fffe}")) }
    } }
    h_22_l032(b) { let w = "\u{10fffe}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{10fffe}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{10fffe}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{10fffe}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{10fffe}", "b", "\u{10fffe}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{10fffe}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{10fffe}"), (("\u{10fffe}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{10fffe}" }, ({ ("\u{10fffe}") }), a = { "\u{10fffe}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{10fffe}", x, "\u{10fffe}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{10fffe}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{10fffe}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{10fffe}" = bool!(k), ("\u{10fffe}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{10fffe}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{10fffe}" }, x)) }
        13 => { lit(w); end(b, "\u{10fffe}") }
        14 => { let v = "\u{10fffe}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{10fffe}"; let c = b!(v); let v = "\u{10fffe}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{10fffe}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{10fffe}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{10fffe}"; }, { { "\u{10fffe}"; } }, { "\u{10fffe}"; x }, { "\u{10fffe}"; "\u{10fffe}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{10fffe}" }, loop { break "\u{10fffe}" }, 'q: { break 'q "\u{10fffe}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{10fffe}" } else { "\u{10fffe}" }, match k { _ => "\u{10fffe}" }, (|| "\u{10fffe}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{10fffe}"), ["\u{10fffe}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{10fffe}", "\u{10fffe}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{10fffe}") } else { frag!(p!({ "\u{10fffe}" })) }), "\u{10fffe}")) }
    } }
    h_22_l033(b) { let w = "\u{300}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{300}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{300}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{300}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{300}", "b", "\u{300}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{300}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{300}"), (("\u{300}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{300}" }, ({ ("\u{300}") }), a = { "\u{300}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{300}", x, "\u{300}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{300}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{300}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{300}" = bool!(k), ("\u{300}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{300}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{300}" }, x)) }
        13 => { lit(w); end(b, "\u{300}") }
        14 => { let v = "\u{300}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{300}"; let c = b!(v); let v = "\u{300}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{300}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{300}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{300}"; }, { { "\u{300}"; } }, { "\u{300}"; x }, { "\u{300}"; "\u{300}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{300}" }, loop { break "\u{300}" }, 'q: { break 'q "\u{300}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{300}" } else { "\u{300}" }, match k { _ => "\u{300}" }, (|| "\u{300}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{300}"), ["\u{300}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{300}", "\u{300}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{300}") } else { frag!(p!({ "\u{300}" })) }), "\u{300}")) }
    } }
    h_22_l034(b) { let w = "e\u{301}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("e\u{301}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("e\u{301}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "e\u{301}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "e\u{301}", "b", "e\u{301}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "e\u{301}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("e\u{301}"), (("e\u{301}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "e\u{301}" }, ({ ("e\u{301}") }), a = { "e\u{301}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("e\u{301}", x, "e\u{301}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("e\u{301}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("e\u{301}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("e\u{301}" = bool!(k), ("e\u{301}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("e\u{301}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "e\u{301}" }, x)) }
        13 => { lit(w); end(b, "e\u{301}") }
        14 => { let v = "e\u{301}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "e\u{301}"; let c = b!(v); let v = "e\u{301}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("e\u{301}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "e\u{301}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "e\u{301}"; }, { { "e\u{301}"; } }, { "e\u{301}"; x }, { "e\u{301}"; "e\u{301}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "e\u{301}" }, loop { break "e\u{301}" }, 'q: { break 'q "e\u{301}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "e\u{301}" } else { "e\u{301}" }, match k { _ => "e\u{301}" }, (|| "e\u{301}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("e\u{301}"), ["e\u{301}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["e\u{301}", "e\u{301}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("e\u{301}") } else { frag!(p!({ "e\u{301}" })) }), "e\u{301}")) }
    } }
    h_22_l035(b) { let w = "Å"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("Å")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("Å")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "Å", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "Å", "b", "Å")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "Å", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("Å"), (("Å")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "Å" }, ({ ("Å") }), a = { "Å" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("Å", x, "Å")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("Å"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("Å" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("Å" = bool!(k), ("Å") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("Å")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "Å" }, x)) }
        13 => { lit(w); end(b, "Å") }
        14 => { let v = "Å"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "Å"; let c = b!(v); let v = "Å"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("Å")) }
        17 => { w!["<p></p>"]; end(b, p!({ "Å"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "Å"; }, { { "Å"; } }, { "Å"; x }, { "Å"; "Å" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "Å" }, loop { break "Å" }, 'q: { break 'q "Å" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "Å" } else { "Å" }, match k { _ => "Å" }, (|| "Å")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("Å"), ["Å"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["Å", "Å"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("Å") } else { frag!(p!({ "Å" })) }), "Å")) }
    } }
    h_22_l036(b) { let w = "ﬁ"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("ﬁ")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("ﬁ")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "ﬁ", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "ﬁ", "b", "ﬁ")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "ﬁ", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("ﬁ"), (("ﬁ")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "ﬁ" }, ({ ("ﬁ") }), a = { "ﬁ" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("ﬁ", x, "ﬁ")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("ﬁ"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("ﬁ" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("ﬁ" = bool!(k), ("ﬁ") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("ﬁ")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "ﬁ" }, x)) }
        13 => { lit(w); end(b, "ﬁ") }
        14 => { let v = "ﬁ"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "ﬁ"; let c = b!(v); let v = "ﬁ"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("ﬁ")) }
        17 => { w!["<p></p>"]; end(b, p!({ "ﬁ"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "ﬁ"; }, { { "ﬁ"; } }, { "ﬁ"; x }, { "ﬁ"; "ﬁ" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "ﬁ" }, loop { break "ﬁ" }, 'q: { break 'q "ﬁ" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "ﬁ" } else { "ﬁ" }, match k { _ => "ﬁ" }, (|| "ﬁ")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("ﬁ"), ["ﬁ"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["ﬁ", "ﬁ"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("ﬁ") } else { frag!(p!({ "ﬁ" })) }), "ﬁ")) }
    } }
    h_22_l037(b) { let w = "ẞß"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("ẞß")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("ẞß")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "ẞß", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "ẞß", "b", "ẞß")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "ẞß", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("ẞß"), (("ẞß")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "ẞß" }, ({ ("ẞß") }), a = { "ẞß" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("ẞß", x, "ẞß")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("ẞß"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("ẞß" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("ẞß" = bool!(k), ("ẞß") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("ẞß")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "ẞß" }, x)) }
        13 => { lit(w); end(b, "ẞß") }
        14 => { let v = "ẞß"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "ẞß"; let c = b!(v); let v = "ẞß"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("ẞß")) }
        17 => { w!["<p></p>"]; end(b, p!({ "ẞß"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "ẞß"; }, { { "ẞß"; } }, { "ẞß"; x }, { "ẞß"; "ẞß" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "ẞß" }, loop { break "ẞß" }, 'q: { break 'q "ẞß" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "ẞß" } else { "ẞß" }, match k { _ => "ẞß" }, (|| "ẞß")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("ẞß"), ["ẞß"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["ẞß", "ẞß"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("ẞß") } else { frag!(p!({ "ẞß" })) }), "ẞß")) }
    } }
    h_22_l038(b) { let w = "İı"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("İı")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("İı")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "İı", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "İı", "b", "İı")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "İı", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("İı"), (("İı")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "İı" }, ({ ("İı") }), a = { "İı" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("İı", x, "İı")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("İı"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("İı" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("İı" = bool!(k), ("İı") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("İı")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "İı" }, x)) }
        13 => { lit(w); end(b, "İı") }
        14 => { let v = "İı"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "İı"; let c = b!(v); let v = "İı"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("İı")) }
        17 => { w!["<p></p>"]; end(b, p!({ "İı"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "İı"; }, { { "İı"; } }, { "İı"; x }, { "İı"; "İı" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "İı" }, loop { break "İı" }, 'q: { break 'q "İı" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "İı" } else { "İı" }, match k { _ => "İı" }, (|| "İı")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("İı"), ["İı"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["İı", "İı"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("İı") } else { frag!(p!({ "İı" })) }), "İı")) }
    } }
    h_22_l039(b) { let w = "  a  b  "; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("  a  b  ")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("  a  b  ")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "  a  b  ", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "  a  b  ", "b", "  a  b  ")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "  a  b  ", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("  a  b  "), (("  a  b  ")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "  a  b  " }, ({ ("  a  b  ") }), a = { "  a  b  " })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("  a  b  ", x, "  a  b  ")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("  a  b  "), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("  a  b  " = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("  a  b  " = bool!(k), ("  a  b  ") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("  a  b  ")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "  a  b  " }, x)) }
        13 => { lit(w); end(b, "  a  b  ") }
        14 => { let v = "  a  b  "; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "  a  b  "; let c = b!(v); let v = "  a  b  "; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("  a  b  ")) }
        17 => { w!["<p></p>"]; end(b, p!({ "  a  b  "; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "  a  b  "; }, { { "  a  b  "; } }, { "  a  b  "; x }, { "  a  b  "; "  a  b  " })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "  a  b  " }, loop { break "  a  b  " }, 'q: { break 'q "  a  b  " })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "  a  b  " } else { "  a  b  " }, match k { _ => "  a  b  " }, (|| "  a  b  ")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("  a  b  "), ["  a  b  "][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["  a  b  ", "  a  b  "])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("  a  b  ") } else { frag!(p!({ "  a  b  " })) }), "  a  b  ")) }
    } }
    h_22_l040(b) { let w = "\u{9}\u{9}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{9}\u{9}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{9}\u{9}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{9}\u{9}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{9}\u{9}", "b", "\u{9}\u{9}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{9}\u{9}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{9}\u{9}"), (("\u{9}\u{9}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{9}\u{9}" }, ({ ("\u{9}\u{9}") }), a = { "\u{9}\u{9}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{9}\u{9}", x, "\u{9}\u{9}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{9}\u{9}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{9}\u{9}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{9}\u{9}" = bool!(k), ("\u{9}\u{9}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{9}\u{9}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{9}\u{9}" }, x)) }
        13 => { lit(w); end(b, "\u{9}\u{9}") }
        14 => { let v = "\u{9}\u{9}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{9}\u{9}"; let c = b!(v); let v = "\u{9}\u{9}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{9}\u{9}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{9}\u{9}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{9}\u{9}"; }, { { "\u{9}\u{9}"; } }, { "\u{9}\u{9}"; x }, { "\u{9}\u{9}"; "\u{9}\u{9}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{9}\u{9}" }, loop { break "\u{9}\u{9}" }, 'q: { break 'q "\u{9}\u{9}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{9}\u{9}" } else { "\u{9}\u{9}" }, match k { _ => "\u{9}\u{9}" }, (|| "\u{9}\u{9}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{9}\u{9}"), ["\u{9}\u{9}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{9}\u{9}", "\u{9}\u{9}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{9}\u{9}") } else { frag!(p!({ "\u{9}\u{9}" })) }), "\u{9}\u{9}")) }
    } }
    h_22_l041(b) { let w = " \u{a} "; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(" \u{a} ")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(" \u{a} ")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, " \u{a} ", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", " \u{a} ", "b", " \u{a} ")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = " \u{a} ", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((" \u{a} "), ((" \u{a} ")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ " \u{a} " }, ({ (" \u{a} ") }), a = { " \u{a} " })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(" \u{a} ", x, " \u{a} ")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(" \u{a} "), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(" \u{a} " = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(" \u{a} " = bool!(k), (" \u{a} ") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(" \u{a} ")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; " \u{a} " }, x)) }
        13 => { lit(w); end(b, " \u{a} ") }
        14 => { let v = " \u{a} "; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = " \u{a} "; let c = b!(v); let v = " \u{a} "; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(" \u{a} ")) }
        17 => { w!["<p></p>"]; end(b, p!({ " \u{a} "; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { " \u{a} "; }, { { " \u{a} "; } }, { " \u{a} "; x }, { " \u{a} "; " \u{a} " })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { " \u{a} " }, loop { break " \u{a} " }, 'q: { break 'q " \u{a} " })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { " \u{a} " } else { " \u{a} " }, match k { _ => " \u{a} " }, (|| " \u{a} ")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(" \u{a} "), [" \u{a} "][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [" \u{a} ", " \u{a} "])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(" \u{a} ") } else { frag!(p!({ " \u{a} " })) }), " \u{a} ")) }
    } }
    h_22_l042(b) { let w = "\u{1b}[0m"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{1b}[0m")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{1b}[0m")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{1b}[0m", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{1b}[0m", "b", "\u{1b}[0m")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{1b}[0m", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{1b}[0m"), (("\u{1b}[0m")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{1b}[0m" }, ({ ("\u{1b}[0m") }), a = { "\u{1b}[0m" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{1b}[0m", x, "\u{1b}[0m")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{1b}[0m"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{1b}[0m" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{1b}[0m" = bool!(k), ("\u{1b}[0m") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{1b}[0m")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{1b}[0m" }, x)) }
        13 => { lit(w); end(b, "\u{1b}[0m") }
        14 => { let v = "\u{1b}[0m"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{1b}[0m"; let c = b!(v); let v = "\u{1b}[0m"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{1b}[0m")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{1b}[0m"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{1b}[0m"; }, { { "\u{1b}[0m"; } }, { "\u{1b}[0m"; x }, { "\u{1b}[0m"; "\u{1b}[0m" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{1b}[0m" }, loop { break "\u{1b}[0m" }, 'q: { break 'q "\u{1b}[0m" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{1b}[0m" } else { "\u{1b}[0m" }, match k { _ => "\u{1b}[0m" }, (|| "\u{1b}[0m")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{1b}[0m"), ["\u{1b}[0m"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{1b}[0m", "\u{1b}[0m"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{1b}[0m") } else { frag!(p!({ "\u{1b}[0m" })) }), "\u{1b}[0m")) }
    } }
    h_22_l043(b) { let w = "\u{1}\u{2}\u{1f}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{1}\u{2}\u{1f}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{1}\u{2}\u{1f}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{1}\u{2}\u{1f}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{1}\u{2}\u{1f}", "b", "\u{1}\u{2}\u{1f}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{1}\u{2}\u{1f}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{1}\u{2}\u{1f}"), (("\u{1}\u{2}\u{1f}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{1}\u{2}\u{1f}" }, ({ ("\u{1}\u{2}\u{1f}") }), a = { "\u{1}\u{2}\u{1f}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{1}\u{2}\u{1f}", x, "\u{1}\u{2}\u{1f}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{1}\u{2}\u{1f}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{1}\u{2}\u{1f}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{1}\u{2}\u{1f}" = bool!(k), ("\u{1}\u{2}\u{1f}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{1}\u{2}\u{1f}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{1}\u{2}\u{1f}" }, x)) }
        13 => { lit(w); end(b, "\u{1}\u{2}\u{1f}") }
        14 => { let v = "\u{1}\u{2}\u{1f}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{1}\u{2}\u{1f}"; let c = b!(v); let v = "\u{1}\u{2}\u{1f}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{1}\u{2}\u{1f}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{1}\u{2}\u{1f}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{1}\u{2}\u{1f}"; }, { { "\u{1}\u{2}\u{1f}"; } }, { "\u{1}\u{2}\u{1f}"; x }, { "\u{1}\u{2}\u{1f}"; "\u{1}\u{2}\u{1f}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{1}\u{2}\u{1f}" }, loop { break "\u{1}\u{2}\u{1f}" }, 'q: { break 'q "\u{1}\u{2}\u{1f}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{1}\u{2}\u{1f}" } else { "\u{1}\u{2}\u{1f}" }, match k { _ => "\u{1}\u{2}\u{1f}" }, (|| "\u{1}\u{2}\u{1f}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{1}\u{2}\u{1f}"), ["\u{1}\u{2}\u{1f}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{1}\u{2}\u{1f}", "\u{1}\u{2}\u{1f}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{1}\u{2}\u{1f}") } else { frag!(p!({ "\u{1}\u{2}\u{1f}" })) }), "\u{1}\u{2}\u{1f}")) }
    } }
    h_22_l044(b) { let w = "\u{e000}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{e000}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{e000}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{e000}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{e000}", "b", "\u{e000}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{e000}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{e000}"), (("\u{e000}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{e000}" }, ({ ("\u{e000}") }), a = { "\u{e000}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{e000}", x, "\u{e000}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{e000}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{e000}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{e000}" = bool!(k), ("\u{e000}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{e000}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{e000}" }, x)) }
        13 => { lit(w); end(b, "\u{e000}") }
        14 => { let v = "\u{e000}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{e000}"; let c = b!(v); let v = "\u{e000}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{e000}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{e000}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{e000}"; }, { { "\u{e000}"; } }, { "\u{e000}"; x }, { "\u{e000}"; "\u{e000}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{e000}" }, loop { break "\u{e000}" }, 'q: { break 'q "\u{e000}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{e000}" } else { "\u{e000}" }, match k { _ => "\u{e000}" }, (|| "\u{e000}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{e000}"), ["\u{e000}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{e000}", "\u{e000}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{e000}") } else { frag!(p!({ "\u{e000}" })) }), "\u{e000}")) }
    } }
    h_22_l045(b) { let w = "\u{2060}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{2060}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{2060}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{2060}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{2060}", "b", "\u{2060}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{2060}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{2060}"), (("\u{2060}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{2060}" }, ({ ("\u{2060}") }), a = { "\u{2060}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{2060}", x, "\u{2060}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{2060}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{2060}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{2060}" = bool!(k), ("\u{2060}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{2060}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{2060}" }, x)) }
        13 => { lit(w); end(b, "\u{2060}") }
        14 => { let v = "\u{2060}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{2060}"; let c = b!(v); let v = "\u{2060}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{2060}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{2060}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{2060}"; }, { { "\u{2060}"; } }, { "\u{2060}"; x }, { "\u{2060}"; "\u{2060}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{2060}" }, loop { break "\u{2060}" }, 'q: { break 'q "\u{2060}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{2060}" } else { "\u{2060}" }, match k { _ => "\u{2060}" }, (|| "\u{2060}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{2060}"), ["\u{2060}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{2060}", "\u{2060}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{2060}") } else { frag!(p!({ "\u{2060}" })) }), "\u{2060}")) }
    } }
    h_22_l046(b) { let w = "%20%s"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("%20%s")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("%20%s")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "%20%s", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "%20%s", "b", "%20%s")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "%20%s", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("%20%s"), (("%20%s")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "%20%s" }, ({ ("%20%s") }), a = { "%20%s" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("%20%s", x, "%20%s")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("%20%s"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("%20%s" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("%20%s" = bool!(k), ("%20%s") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("%20%s")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "%20%s" }, x)) }
        13 => { lit(w); end(b, "%20%s") }
        14 => { let v = "%20%s"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "%20%s"; let c = b!(v); let v = "%20%s"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("%20%s")) }
        17 => { w!["<p></p>"]; end(b, p!({ "%20%s"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "%20%s"; }, { { "%20%s"; } }, { "%20%s"; x }, { "%20%s"; "%20%s" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "%20%s" }, loop { break "%20%s" }, 'q: { break 'q "%20%s" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "%20%s" } else { "%20%s" }, match k { _ => "%20%s" }, (|| "%20%s")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("%20%s"), ["%20%s"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["%20%s", "%20%s"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("%20%s") } else { frag!(p!({ "%20%s" })) }), "%20%s")) }
    } }
    h_22_l047(b) { let w = "${x}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("${x}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("${x}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "${x}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "${x}", "b", "${x}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "${x}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("${x}"), (("${x}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "${x}" }, ({ ("${x}") }), a = { "${x}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("${x}", x, "${x}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("${x}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("${x}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("${x}" = bool!(k), ("${x}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("${x}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "${x}" }, x)) }
        13 => { lit(w); end(b, "${x}") }
        14 => { let v = "${x}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "${x}"; let c = b!(v); let v = "${x}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("${x}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "${x}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "${x}"; }, { { "${x}"; } }, { "${x}"; x }, { "${x}"; "${x}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "${x}" }, loop { break "${x}" }, 'q: { break 'q "${x}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "${x}" } else { "${x}" }, match k { _ => "${x}" }, (|| "${x}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("${x}"), ["${x}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["${x}", "${x}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("${x}") } else { frag!(p!({ "${x}" })) }), "${x}")) }
    } }
    h_22_l048(b) { let w = "#{x}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("#{x}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("#{x}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "#{x}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "#{x}", "b", "#{x}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "#{x}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("#{x}"), (("#{x}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "#{x}" }, ({ ("#{x}") }), a = { "#{x}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("#{x}", x, "#{x}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("#{x}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("#{x}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("#{x}" = bool!(k), ("#{x}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("#{x}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "#{x}" }, x)) }
        13 => { lit(w); end(b, "#{x}") }
        14 => { let v = "#{x}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "#{x}"; let c = b!(v); let v = "#{x}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("#{x}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "#{x}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "#{x}"; }, { { "#{x}"; } }, { "#{x}"; x }, { "#{x}"; "#{x}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "#{x}" }, loop { break "#{x}" }, 'q: { break 'q "#{x}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "#{x}" } else { "#{x}" }, match k { _ => "#{x}" }, (|| "#{x}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("#{x}"), ["#{x}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["#{x}", "#{x}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("#{x}") } else { frag!(p!({ "#{x}" })) }), "#{x}")) }
    } }
    h_22_l049(b) { let w = "\\n"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\\n")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\\n")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\\n", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\\n", "b", "\\n")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\\n", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\\n"), (("\\n")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\\n" }, ({ ("\\n") }), a = { "\\n" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\\n", x, "\\n")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\\n"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\\n" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\\n" = bool!(k), ("\\n") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\\n")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\\n" }, x)) }
        13 => { lit(w); end(b, "\\n") }
        14 => { let v = "\\n"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\\n"; let c = b!(v); let v = "\\n"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\\n")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\\n"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\\n"; }, { { "\\n"; } }, { "\\n"; x }, { "\\n"; "\\n" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\\n" }, loop { break "\\n" }, 'q: { break 'q "\\n" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\\n" } else { "\\n" }, match k { _ => "\\n" }, (|| "\\n")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\\n"), ["\\n"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\\n", "\\n"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\\n") } else { frag!(p!({ "\\n" })) }), "\\n")) }
    } }
    h_22_l050(b) { let w = "\\"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\\")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\\")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\\", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\\", "b", "\\")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\\", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\\"), (("\\")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\\" }, ({ ("\\") }), a = { "\\" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\\", x, "\\")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\\"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\\" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\\" = bool!(k), ("\\") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\\")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\\" }, x)) }
        13 => { lit(w); end(b, "\\") }
        14 => { let v = "\\"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\\"; let c = b!(v); let v = "\\"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\\")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\\"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\\"; }, { { "\\"; } }, { "\\"; x }, { "\\"; "\\" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\\" }, loop { break "\\" }, 'q: { break 'q "\\" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\\" } else { "\\" }, match k { _ => "\\" }, (|| "\\")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\\"), ["\\"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\\", "\\"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\\") } else { frag!(p!({ "\\" })) }), "\\")) }
    } }
    h_22_l051(b) { let w = "\\\\u{41}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\\\\u{41}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\\\\u{41}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\\\\u{41}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\\\\u{41}", "b", "\\\\u{41}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\\\\u{41}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\\\\u{41}"), (("\\\\u{41}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\\\\u{41}" }, ({ ("\\\\u{41}") }), a = { "\\\\u{41}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\\\\u{41}", x, "\\\\u{41}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\\\\u{41}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\\\\u{41}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\\\\u{41}" = bool!(k), ("\\\\u{41}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\\\\u{41}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\\\\u{41}" }, x)) }
        13 => { lit(w); end(b, "\\\\u{41}") }
        14 => { let v = "\\\\u{41}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\\\\u{41}"; let c = b!(v); let v = "\\\\u{41}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\\\\u{41}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\\\\u{41}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\\\\u{41}"; }, { { "\\\\u{41}"; } }, { "\\\\u{41}"; x }, { "\\\\u{41}"; "\\\\u{41}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\\\\u{41}" }, loop { break "\\\\u{41}" }, 'q: { break 'q "\\\\u{41}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\\\\u{41}" } else { "\\\\u{41}" }, match k { _ => "\\\\u{41}" }, (|| "\\\\u{41}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\\\\u{41}"), ["\\\\u{41}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\\\\u{41}", "\\\\u{41}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\\\\u{41}") } else { frag!(p!({ "\\\\u{41}" })) }), "\\\\u{41}")) }
    } }
    h_22_l052(b) { let w = "`"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("`")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("`")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "`", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "`", "b", "`")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "`", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("`"), (("`")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "`" }, ({ ("`") }), a = { "`" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("`", x, "`")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("`"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("`" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("`" = bool!(k), ("`") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("`")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "`" }, x)) }
        13 => { lit(w); end(b, "`") }
        14 => { let v = "`"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "`"; let c = b!(v); let v = "`"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("`")) }
        17 => { w!["<p></p>"]; end(b, p!({ "`"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "`"; }, { { "`"; } }, { "`"; x }, { "`"; "`" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "`" }, loop { break "`" }, 'q: { break 'q "`" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "`" } else { "`" }, match k { _ => "`" }, (|| "`")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("`"), ["`"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["`", "`"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("`") } else { frag!(p!({ "`" })) }), "`")) }
    } }
    h_22_l053(b) { let w = "&amp;nbsp;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("&nbsp;")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("&nbsp;")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "&nbsp;", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "&nbsp;", "b", "&nbsp;")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "&nbsp;", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("&nbsp;"), (("&nbsp;")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "&nbsp;" }, ({ ("&nbsp;") }), a = { "&nbsp;" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("&nbsp;", x, "&nbsp;")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("&nbsp;"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("&nbsp;" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("&nbsp;" = bool!(k), ("&nbsp;") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("&nbsp;")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "&nbsp;" }, x)) }
        13 => { lit(w); end(b, "&nbsp;") }
        14 => { let v = "&nbsp;"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "&nbsp;"; let c = b!(v); let v = "&nbsp;"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("&nbsp;")) }
        17 => { w!["<p></p>"]; end(b, p!({ "&nbsp;"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "&nbsp;"; }, { { "&nbsp;"; } }, { "&nbsp;"; x }, { "&nbsp;"; "&nbsp;" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "&nbsp;" }, loop { break "&nbsp;" }, 'q: { break 'q "&nbsp;" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "&nbsp;" } else { "&nbsp;" }, match k { _ => "&nbsp;" }, (|| "&nbsp;")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("&nbsp;"), ["&nbsp;"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["&nbsp;", "&nbsp;"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("&nbsp;") } else { frag!(p!({ "&nbsp;" })) }), "&nbsp;")) }
    } }
    h_22_l054(b) { let w = "&amp;#39;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("&#39;")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("&#39;")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "&#39;", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "&#39;", "b", "&#39;")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "&#39;", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("&#39;"), (("&#39;")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "&#39;" }, ({ ("&#39;") }), a = { "&#39;" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("&#39;", x, "&#39;")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("&#39;"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("&#39;" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("&#39;" = bool!(k), ("&#39;") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("&#39;")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "&#39;" }, x)) }
        13 => { lit(w); end(b, "&#39;") }
        14 => { let v = "&#39;"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "&#39;"; let c = b!(v); let v = "&#39;"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("&#39;")) }
        17 => { w!["<p></p>"]; end(b, p!({ "&#39;"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "&#39;"; }, { { "&#39;"; } }, { "&#39;"; x }, { "&#39;"; "&#39;" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "&#39;" }, loop { break "&#39;" }, 'q: { break 'q "&#39;" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "&#39;" } else { "&#39;" }, match k { _ => "&#39;" }, (|| "&#39;")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("&#39;"), ["&#39;"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["&#39;", "&#39;"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("&#39;") } else { frag!(p!({ "&#39;" })) }), "&#39;")) }
    } }
    h_22_l055(b) { let w = "&amp;&amp;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("&&")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("&&")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "&&", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "&&", "b", "&&")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "&&", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("&&"), (("&&")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "&&" }, ({ ("&&") }), a = { "&&" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("&&", x, "&&")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("&&"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("&&" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("&&" = bool!(k), ("&&") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("&&")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "&&" }, x)) }
        13 => { lit(w); end(b, "&&") }
        14 => { let v = "&&"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "&&"; let c = b!(v); let v = "&&"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("&&")) }
        17 => { w!["<p></p>"]; end(b, p!({ "&&"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "&&"; }, { { "&&"; } }, { "&&"; x }, { "&&"; "&&" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "&&" }, loop { break "&&" }, 'q: { break 'q "&&" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "&&" } else { "&&" }, match k { _ => "&&" }, (|| "&&")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("&&"), ["&&"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["&&", "&&"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("&&") } else { frag!(p!({ "&&" })) }), "&&")) }
    } }
    h_22_l056(b) { let w = "&lt;!----&gt;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("<!---->")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("<!---->")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "<!---->", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "<!---->", "b", "<!---->")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "<!---->", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("<!---->"), (("<!---->")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "<!---->" }, ({ ("<!---->") }), a = { "<!---->" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("<!---->", x, "<!---->")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("<!---->"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("<!---->" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("<!---->" = bool!(k), ("<!---->") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("<!---->")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "<!---->" }, x)) }
        13 => { lit(w); end(b, "<!---->") }
        14 => { let v = "<!---->"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "<!---->"; let c = b!(v); let v = "<!---->"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("<!---->")) }
        17 => { w!["<p></p>"]; end(b, p!({ "<!---->"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "<!---->"; }, { { "<!---->"; } }, { "<!---->"; x }, { "<!---->"; "<!---->" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "<!---->" }, loop { break "<!---->" }, 'q: { break 'q "<!---->" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "<!---->" } else { "<!---->" }, match k { _ => "<!---->" }, (|| "<!---->")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("<!---->"), ["<!---->"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["<!---->", "<!---->"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("<!---->") } else { frag!(p!({ "<!---->" })) }), "<!---->")) }
    } }
    h_22_l057(b) { let w = "&lt;/script&gt;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("</script>")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("</script>")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "</script>", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "</script>", "b", "</script>")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "</script>", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("</script>"), (("</script>")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "</script>" }, ({ ("</script>") }), a = { "</script>" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("</script>", x, "</script>")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("</script>"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("</script>" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("</script>" = bool!(k), ("</script>") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("</script>")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "</script>" }, x)) }
        13 => { lit(w); end(b, "</script>") }
        14 => { let v = "</script>"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "</script>"; let c = b!(v); let v = "</script>"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("</script>")) }
        17 => { w!["<p></p>"]; end(b, p!({ "</script>"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "</script>"; }, { { "</script>"; } }, { "</script>"; x }, { "</script>"; "</script>" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "</script>" }, loop { break "</script>" }, 'q: { break 'q "</script>" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "</script>" } else { "</script>" }, match k { _ => "</script>" }, (|| "</script>")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("</script>"), ["</script>"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["</script>", "</script>"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("</script>") } else { frag!(p!({ "</script>" })) }), "</script>")) }
    } }
    h_22_l058(b) { let w = "&lt;?"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("<?")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("<?")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "<?", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "<?", "b", "<?")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "<?", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("<?"), (("<?")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "<?" }, ({ ("<?") }), a = { "<?" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("<?", x, "<?")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("<?"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("<?" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("<?" = bool!(k), ("<?") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("<?")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "<?" }, x)) }
        13 => { lit(w); end(b, "<?") }
        14 => { let v = "<?"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "<?"; let c = b!(v); let v = "<?"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("<?")) }
        17 => { w!["<p></p>"]; end(b, p!({ "<?"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "<?"; }, { { "<?"; } }, { "<?"; x }, { "<?"; "<?" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "<?" }, loop { break "<?" }, 'q: { break 'q "<?" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "<?" } else { "<?" }, match k { _ => "<?" }, (|| "<?")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("<?"), ["<?"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["<?", "<?"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("<?") } else { frag!(p!({ "<?" })) }), "<?")) }
    } }
    h_22_l059(b) { let w = "]]&gt;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("]]>")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("]]>")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "]]>", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "]]>", "b", "]]>")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "]]>", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("]]>"), (("]]>")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "]]>" }, ({ ("]]>") }), a = { "]]>" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("]]>", x, "]]>")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("]]>"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("]]>" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("]]>" = bool!(k), ("]]>") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("]]>")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "]]>" }, x)) }
        13 => { lit(w); end(b, "]]>") }
        14 => { let v = "]]>"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "]]>"; let c = b!(v); let v = "]]>"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("]]>")) }
        17 => { w!["<p></p>"]; end(b, p!({ "]]>"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "]]>"; }, { { "]]>"; } }, { "]]>"; x }, { "]]>"; "]]>" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "]]>" }, loop { break "]]>" }, 'q: { break 'q "]]>" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "]]>" } else { "]]>" }, match k { _ => "]]>" }, (|| "]]>")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("]]>"), ["]]>"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["]]>", "]]>"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("]]>") } else { frag!(p!({ "]]>" })) }), "]]>")) }
    } }
    h_22_l060(b) { let w = "&lt;![CDATA["; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("<![CDATA[")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("<![CDATA[")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "<![CDATA[", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "<![CDATA[", "b", "<![CDATA[")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "<![CDATA[", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("<![CDATA["), (("<![CDATA[")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "<![CDATA[" }, ({ ("<![CDATA[") }), a = { "<![CDATA[" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("<![CDATA[", x, "<![CDATA[")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("<![CDATA["), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("<![CDATA[" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("<![CDATA[" = bool!(k), ("<![CDATA[") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("<![CDATA[")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "<![CDATA[" }, x)) }
        13 => { lit(w); end(b, "<![CDATA[") }
        14 => { let v = "<![CDATA["; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "<![CDATA["; let c = b!(v); let v = "<![CDATA["; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("<![CDATA[")) }
        17 => { w!["<p></p>"]; end(b, p!({ "<![CDATA["; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "<![CDATA["; }, { { "<![CDATA["; } }, { "<![CDATA["; x }, { "<![CDATA["; "<![CDATA[" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "<![CDATA[" }, loop { break "<![CDATA[" }, 'q: { break 'q "<![CDATA[" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "<![CDATA[" } else { "<![CDATA[" }, match k { _ => "<![CDATA[" }, (|| "<![CDATA[")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("<![CDATA["), ["<![CDATA["][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["<![CDATA[", "<![CDATA["])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("<![CDATA[") } else { frag!(p!({ "<![CDATA[" })) }), "<![CDATA[")) }
    } }
    h_22_l061(b) { let w = "&quot;&quot;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\"\"")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\"\"")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\"\"", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\"\"", "b", "\"\"")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\"\"", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\"\""), (("\"\"")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\"\"" }, ({ ("\"\"") }), a = { "\"\"" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\"\"", x, "\"\"")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\"\""), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\"\"" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\"\"" = bool!(k), ("\"\"") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\"\"")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\"\"" }, x)) }
        13 => { lit(w); end(b, "\"\"") }
        14 => { let v = "\"\""; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\"\""; let c = b!(v); let v = "\"\""; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\"\"")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\"\""; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\"\""; }, { { "\"\""; } }, { "\"\""; x }, { "\"\""; "\"\"" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\"\"" }, loop { break "\"\"" }, 'q: { break 'q "\"\"" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\"\"" } else { "\"\"" }, match k { _ => "\"\"" }, (|| "\"\"")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\"\""), ["\"\""][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\"\"", "\"\""])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\"\"") } else { frag!(p!({ "\"\"" })) }), "\"\"")) }
    } }
    h_22_l062(b) { let w = "&#39;&#39;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("''")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("''")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "''", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "''", "b", "''")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "''", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("''"), (("''")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "''" }, ({ ("''") }), a = { "''" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("''", x, "''")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("''"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("''" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("''" = bool!(k), ("''") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("''")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "''" }, x)) }
        13 => { lit(w); end(b, "''") }
        14 => { let v = "''"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "''"; let c = b!(v); let v = "''"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("''")) }
        17 => { w!["<p></p>"]; end(b, p!({ "''"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "''"; }, { { "''"; } }, { "''"; x }, { "''"; "''" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "''" }, loop { break "''" }, 'q: { break 'q "''" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "''" } else { "''" }, match k { _ => "''" }, (|| "''")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("''"), ["''"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["''", "''"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("''") } else { frag!(p!({ "''" })) }), "''")) }
    } }
    h_22_l063(b) { let w = "&lt;&gt;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("<>")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("<>")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "<>", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "<>", "b", "<>")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "<>", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("<>"), (("<>")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "<>" }, ({ ("<>") }), a = { "<>" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("<>", x, "<>")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("<>"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("<>" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("<>" = bool!(k), ("<>") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("<>")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "<>" }, x)) }
        13 => { lit(w); end(b, "<>") }
        14 => { let v = "<>"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "<>"; let c = b!(v); let v = "<>"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("<>")) }
        17 => { w!["<p></p>"]; end(b, p!({ "<>"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "<>"; }, { { "<>"; } }, { "<>"; x }, { "<>"; "<>" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "<>" }, loop { break "<>" }, 'q: { break 'q "<>" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "<>" } else { "<>" }, match k { _ => "<>" }, (|| "<>")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("<>"), ["<>"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["<>", "<>"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("<>") } else { frag!(p!({ "<>" })) }), "<>")) }
    } }
    h_22_l064(b) { let w = "&gt;&lt;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("><")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("><")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "><", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "><", "b", "><")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "><", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("><"), (("><")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "><" }, ({ ("><") }), a = { "><" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("><", x, "><")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("><"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("><" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("><" = bool!(k), ("><") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("><")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "><" }, x)) }
        13 => { lit(w); end(b, "><") }
        14 => { let v = "><"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "><"; let c = b!(v); let v = "><"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("><")) }
        17 => { w!["<p></p>"]; end(b, p!({ "><"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "><"; }, { { "><"; } }, { "><"; x }, { "><"; "><" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "><" }, loop { break "><" }, 'q: { break 'q "><" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "><" } else { "><" }, match k { _ => "><" }, (|| "><")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("><"), ["><"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["><", "><"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("><") } else { frag!(p!({ "><" })) }), "><")) }
    } }
    h_22_l065(b) { let w = "&amp;lt"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("&lt")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("&lt")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "&lt", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "&lt", "b", "&lt")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "&lt", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("&lt"), (("&lt")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "&lt" }, ({ ("&lt") }), a = { "&lt" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("&lt", x, "&lt")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("&lt"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("&lt" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("&lt" = bool!(k), ("&lt") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("&lt")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "&lt" }, x)) }
        13 => { lit(w); end(b, "&lt") }
        14 => { let v = "&lt"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "&lt"; let c = b!(v); let v = "&lt"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("&lt")) }
        17 => { w!["<p></p>"]; end(b, p!({ "&lt"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "&lt"; }, { { "&lt"; } }, { "&lt"; x }, { "&lt"; "&lt" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "&lt" }, loop { break "&lt" }, 'q: { break 'q "&lt" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "&lt" } else { "&lt" }, match k { _ => "&lt" }, (|| "&lt")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("&lt"), ["&lt"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["&lt", "&lt"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("&lt") } else { frag!(p!({ "&lt" })) }), "&lt")) }
    } }
    h_22_l066(b) { let w = "&amp;lt;b&amp;gt;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("&lt;b&gt;")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("&lt;b&gt;")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "&lt;b&gt;", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "&lt;b&gt;", "b", "&lt;b&gt;")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "&lt;b&gt;", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("&lt;b&gt;"), (("&lt;b&gt;")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "&lt;b&gt;" }, ({ ("&lt;b&gt;") }), a = { "&lt;b&gt;" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("&lt;b&gt;", x, "&lt;b&gt;")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("&lt;b&gt;"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("&lt;b&gt;" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("&lt;b&gt;" = bool!(k), ("&lt;b&gt;") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("&lt;b&gt;")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "&lt;b&gt;" }, x)) }
        13 => { lit(w); end(b, "&lt;b&gt;") }
        14 => { let v = "&lt;b&gt;"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "&lt;b&gt;"; let c = b!(v); let v = "&lt;b&gt;"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("&lt;b&gt;")) }
        17 => { w!["<p></p>"]; end(b, p!({ "&lt;b&gt;"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "&lt;b&gt;"; }, { { "&lt;b&gt;"; } }, { "&lt;b&gt;"; x }, { "&lt;b&gt;"; "&lt;b&gt;" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "&lt;b&gt;" }, loop { break "&lt;b&gt;" }, 'q: { break 'q "&lt;b&gt;" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "&lt;b&gt;" } else { "&lt;b&gt;" }, match k { _ => "&lt;b&gt;" }, (|| "&lt;b&gt;")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("&lt;b&gt;"), ["&lt;b&gt;"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["&lt;b&gt;", "&lt;b&gt;"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("&lt;b&gt;") } else { frag!(p!({ "&lt;b&gt;" })) }), "&lt;b&gt;")) }
    } }
    h_22_l067(b) { let w = "="; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("=")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("=")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "=", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "=", "b", "=")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "=", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("="), (("=")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "=" }, ({ ("=") }), a = { "=" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("=", x, "=")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("="), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("=" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("=" = bool!(k), ("=") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("=")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "=" }, x)) }
        13 => { lit(w); end(b, "=") }
        14 => { let v = "="; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "="; let c = b!(v); let v = "="; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("=")) }
        17 => { w!["<p></p>"]; end(b, p!({ "="; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "="; }, { { "="; } }, { "="; x }, { "="; "=" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "=" }, loop { break "=" }, 'q: { break 'q "=" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "=" } else { "=" }, match k { _ => "=" }, (|| "=")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("="), ["="][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["=", "="])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("=") } else { frag!(p!({ "=" })) }), "=")) }
    } }
    h_22_l068(b) { let w = "&quot;=&#39;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\"='")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\"='")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\"='", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\"='", "b", "\"='")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\"='", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\"='"), (("\"='")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\"='" }, ({ ("\"='") }), a = { "\"='" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\"='", x, "\"='")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\"='"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\"='" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\"='" = bool!(k), ("\"='") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\"='")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\"='" }, x)) }
        13 => { lit(w); end(b, "\"='") }
        14 => { let v = "\"='"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\"='"; let c = b!(v); let v = "\"='"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\"='")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\"='"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\"='"; }, { { "\"='"; } }, { "\"='"; x }, { "\"='"; "\"='" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\"='" }, loop { break "\"='" }, 'q: { break 'q "\"='" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\"='" } else { "\"='" }, match k { _ => "\"='" }, (|| "\"='")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\"='"), ["\"='"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\"='", "\"='"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\"='") } else { frag!(p!({ "\"='" })) }), "\"='")) }
    } }
    h_22_l069(b) { let w = "\u{ff11}\u{ff12}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{ff11}\u{ff12}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{ff11}\u{ff12}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{ff11}\u{ff12}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{ff11}\u{ff12}", "b", "\u{ff11}\u{ff12}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{ff11}\u{ff12}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{ff11}\u{ff12}"), (("\u{ff11}\u{ff12}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{ff11}\u{ff12}" }, ({ ("\u{ff11}\u{ff12}") }), a = { "\u{ff11}\u{ff12}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{ff11}\u{ff12}", x, "\u{ff11}\u{ff12}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{ff11}\u{ff12}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{ff11}\u{ff12}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{ff11}\u{ff12}" = bool!(k), ("\u{ff11}\u{ff12}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{ff11}\u{ff12}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{ff11}\u{ff12}" }, x)) }
        13 => { lit(w); end(b, "\u{ff11}\u{ff12}") }
        14 => { let v = "\u{ff11}\u{ff12}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{ff11}\u{ff12}"; let c = b!(v); let v = "\u{ff11}\u{ff12}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{ff11}\u{ff12}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{ff11}\u{ff12}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{ff11}\u{ff12}"; }, { { "\u{ff11}\u{ff12}"; } }, { "\u{ff11}\u{ff12}"; x }, { "\u{ff11}\u{ff12}"; "\u{ff11}\u{ff12}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{ff11}\u{ff12}" }, loop { break "\u{ff11}\u{ff12}" }, 'q: { break 'q "\u{ff11}\u{ff12}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{ff11}\u{ff12}" } else { "\u{ff11}\u{ff12}" }, match k { _ => "\u{ff11}\u{ff12}" }, (|| "\u{ff11}\u{ff12}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{ff11}\u{ff12}"), ["\u{ff11}\u{ff12}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{ff11}\u{ff12}", "\u{ff11}\u{ff12}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{ff11}\u{ff12}") } else { frag!(p!({ "\u{ff11}\u{ff12}" })) }), "\u{ff11}\u{ff12}")) }
    } }
    h_22_l070(b) { let w = "\u{1f468}\u{200d}\u{1f469}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("\u{1f468}\u{200d}\u{1f469}")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("\u{1f468}\u{200d}\u{1f469}")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "\u{1f468}\u{200d}\u{1f469}", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "\u{1f468}\u{200d}\u{1f469}", "b", "\u{1f468}\u{200d}\u{1f469}")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "\u{1f468}\u{200d}\u{1f469}", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("\u{1f468}\u{200d}\u{1f469}"), (("\u{1f468}\u{200d}\u{1f469}")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "\u{1f468}\u{200d}\u{1f469}" }, ({ ("\u{1f468}\u{200d}\u{1f469}") }), a = { "\u{1f468}\u{200d}\u{1f469}" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("\u{1f468}\u{200d}\u{1f469}", x, "\u{1f468}\u{200d}\u{1f469}")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("\u{1f468}\u{200d}\u{1f469}"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("\u{1f468}\u{200d}\u{1f469}" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("\u{1f468}\u{200d}\u{1f469}" = bool!(k), ("\u{1f468}\u{200d}\u{1f469}") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("\u{1f468}\u{200d}\u{1f469}")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "\u{1f468}\u{200d}\u{1f469}" }, x)) }
        13 => { lit(w); end(b, "\u{1f468}\u{200d}\u{1f469}") }
        14 => { let v = "\u{1f468}\u{200d}\u{1f469}"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "\u{1f468}\u{200d}\u{1f469}"; let c = b!(v); let v = "\u{1f468}\u{200d}\u{1f469}"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("\u{1f468}\u{200d}\u{1f469}")) }
        17 => { w!["<p></p>"]; end(b, p!({ "\u{1f468}\u{200d}\u{1f469}"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "\u{1f468}\u{200d}\u{1f469}"; }, { { "\u{1f468}\u{200d}\u{1f469}"; } }, { "\u{1f468}\u{200d}\u{1f469}"; x }, { "\u{1f468}\u{200d}\u{1f469}"; "\u{1f468}\u{200d}\u{1f469}" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "\u{1f468}\u{200d}\u{1f469}" }, loop { break "\u{1f468}\u{200d}\u{1f469}" }, 'q: { break 'q "\u{1f468}\u{200d}\u{1f469}" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "\u{1f468}\u{200d}\u{1f469}" } else { "\u{1f468}\u{200d}\u{1f469}" }, match k { _ => "\u{1f468}\u{200d}\u{1f469}" }, (|| "\u{1f468}\u{200d}\u{1f469}")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("\u{1f468}\u{200d}\u{1f469}"), ["\u{1f468}\u{200d}\u{1f469}"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["\u{1f468}\u{200d}\u{1f469}", "\u{1f468}\u{200d}\u{1f469}"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("\u{1f468}\u{200d}\u{1f469}") } else { frag!(p!({ "\u{1f468}\u{200d}\u{1f469}" })) }), "\u{1f468}\u{200d}\u{1f469}")) }
    } }
    h_22_l071(b) { let w = "UPPER"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("UPPER")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("UPPER")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "UPPER", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "UPPER", "b", "UPPER")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "UPPER", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("UPPER"), (("UPPER")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "UPPER" }, ({ ("UPPER") }), a = { "UPPER" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("UPPER", x, "UPPER")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("UPPER"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("UPPER" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("UPPER" = bool!(k), ("UPPER") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("UPPER")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "UPPER" }, x)) }
        13 => { lit(w); end(b, "UPPER") }
        14 => { let v = "UPPER"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "UPPER"; let c = b!(v); let v = "UPPER"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("UPPER")) }
        17 => { w!["<p></p>"]; end(b, p!({ "UPPER"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "UPPER"; }, { { "UPPER"; } }, { "UPPER"; x }, { "UPPER"; "UPPER" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "UPPER" }, loop { break "UPPER" }, 'q: { break 'q "UPPER" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "UPPER" } else { "UPPER" }, match k { _ => "UPPER" }, (|| "UPPER")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("UPPER"), ["UPPER"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["UPPER", "UPPER"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("UPPER") } else { frag!(p!({ "UPPER" })) }), "UPPER")) }
    } }
    h_22_l072(b) { let w = "NaN"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("NaN")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("NaN")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "NaN", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "NaN", "b", "NaN")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "NaN", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("NaN"), (("NaN")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "NaN" }, ({ ("NaN") }), a = { "NaN" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("NaN", x, "NaN")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("NaN"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("NaN" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("NaN" = bool!(k), ("NaN") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("NaN")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "NaN" }, x)) }
        13 => { lit(w); end(b, "NaN") }
        14 => { let v = "NaN"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "NaN"; let c = b!(v); let v = "NaN"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("NaN")) }
        17 => { w!["<p></p>"]; end(b, p!({ "NaN"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "NaN"; }, { { "NaN"; } }, { "NaN"; x }, { "NaN"; "NaN" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "NaN" }, loop { break "NaN" }, 'q: { break 'q "NaN" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "NaN" } else { "NaN" }, match k { _ => "NaN" }, (|| "NaN")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("NaN"), ["NaN"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["NaN", "NaN"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("NaN") } else { frag!(p!({ "NaN" })) }), "NaN")) }
    } }
    h_22_l073(b) { let w = "true "; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("true ")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("true ")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "true ", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "true ", "b", "true ")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "true ", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("true "), (("true ")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "true " }, ({ ("true ") }), a = { "true " })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("true ", x, "true ")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("true "), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("true " = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("true " = bool!(k), ("true ") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("true ")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "true " }, x)) }
        13 => { lit(w); end(b, "true ") }
        14 => { let v = "true "; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "true "; let c = b!(v); let v = "true "; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("true ")) }
        17 => { w!["<p></p>"]; end(b, p!({ "true "; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "true "; }, { { "true "; } }, { "true "; x }, { "true "; "true " })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "true " }, loop { break "true " }, 'q: { break 'q "true " })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "true " } else { "true " }, match k { _ => "true " }, (|| "true ")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("true "), ["true "][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["true ", "true "])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("true ") } else { frag!(p!({ "true " })) }), "true ")) }
    } }
    h_22_l074(b) { let w = "+1"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("+1")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("+1")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "+1", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "+1", "b", "+1")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "+1", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("+1"), (("+1")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "+1" }, ({ ("+1") }), a = { "+1" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("+1", x, "+1")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("+1"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("+1" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("+1" = bool!(k), ("+1") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("+1")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "+1" }, x)) }
        13 => { lit(w); end(b, "+1") }
        14 => { let v = "+1"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "+1"; let c = b!(v); let v = "+1"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("+1")) }
        17 => { w!["<p></p>"]; end(b, p!({ "+1"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "+1"; }, { { "+1"; } }, { "+1"; x }, { "+1"; "+1" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "+1" }, loop { break "+1" }, 'q: { break 'q "+1" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "+1" } else { "+1" }, match k { _ => "+1" }, (|| "+1")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("+1"), ["+1"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["+1", "+1"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("+1") } else { frag!(p!({ "+1" })) }), "+1")) }
    } }
    h_22_l075(b) { let w = "0x10"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("0x10")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("0x10")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "0x10", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "0x10", "b", "0x10")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "0x10", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("0x10"), (("0x10")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "0x10" }, ({ ("0x10") }), a = { "0x10" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("0x10", x, "0x10")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("0x10"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("0x10" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("0x10" = bool!(k), ("0x10") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("0x10")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "0x10" }, x)) }
        13 => { lit(w); end(b, "0x10") }
        14 => { let v = "0x10"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "0x10"; let c = b!(v); let v = "0x10"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("0x10")) }
        17 => { w!["<p></p>"]; end(b, p!({ "0x10"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "0x10"; }, { { "0x10"; } }, { "0x10"; x }, { "0x10"; "0x10" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "0x10" }, loop { break "0x10" }, 'q: { break 'q "0x10" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "0x10" } else { "0x10" }, match k { _ => "0x10" }, (|| "0x10")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("0x10"), ["0x10"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["0x10", "0x10"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("0x10") } else { frag!(p!({ "0x10" })) }), "0x10")) }
    } }
    h_22_l076(b) { let w = "1_000"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("1_000")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("1_000")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "1_000", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "1_000", "b", "1_000")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "1_000", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("1_000"), (("1_000")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "1_000" }, ({ ("1_000") }), a = { "1_000" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("1_000", x, "1_000")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("1_000"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("1_000" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("1_000" = bool!(k), ("1_000") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("1_000")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "1_000" }, x)) }
        13 => { lit(w); end(b, "1_000") }
        14 => { let v = "1_000"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "1_000"; let c = b!(v); let v = "1_000"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("1_000")) }
        17 => { w!["<p></p>"]; end(b, p!({ "1_000"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "1_000"; }, { { "1_000"; } }, { "1_000"; x }, { "1_000"; "1_000" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "1_000" }, loop { break "1_000" }, 'q: { break 'q "1_000" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "1_000" } else { "1_000" }, match k { _ => "1_000" }, (|| "1_000")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("1_000"), ["1_000"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["1_000", "1_000"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("1_000") } else { frag!(p!({ "1_000" })) }), "1_000")) }
    } }
    h_22_l077(b) { let w = "007"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("007")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("007")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "007", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "007", "b", "007")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "007", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("007"), (("007")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "007" }, ({ ("007") }), a = { "007" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("007", x, "007")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("007"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("007" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("007" = bool!(k), ("007") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("007")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "007" }, x)) }
        13 => { lit(w); end(b, "007") }
        14 => { let v = "007"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "007"; let c = b!(v); let v = "007"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("007")) }
        17 => { w!["<p></p>"]; end(b, p!({ "007"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "007"; }, { { "007"; } }, { "007"; x }, { "007"; "007" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "007" }, loop { break "007" }, 'q: { break 'q "007" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "007" } else { "007" }, match k { _ => "007" }, (|| "007")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("007"), ["007"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["007", "007"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("007") } else { frag!(p!({ "007" })) }), "007")) }
    } }
    h_22_l078(b) { let w = "1.50"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("1.50")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("1.50")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "1.50", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "1.50", "b", "1.50")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "1.50", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("1.50"), (("1.50")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "1.50" }, ({ ("1.50") }), a = { "1.50" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("1.50", x, "1.50")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("1.50"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("1.50" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("1.50" = bool!(k), ("1.50") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("1.50")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "1.50" }, x)) }
        13 => { lit(w); end(b, "1.50") }
        14 => { let v = "1.50"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "1.50"; let c = b!(v); let v = "1.50"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("1.50")) }
        17 => { w!["<p></p>"]; end(b, p!({ "1.50"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "1.50"; }, { { "1.50"; } }, { "1.50"; x }, { "1.50"; "1.50" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "1.50" }, loop { break "1.50" }, 'q: { break 'q "1.50" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "1.50" } else { "1.50" }, match k { _ => "1.50" }, (|| "1.50")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("1.50"), ["1.50"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["1.50", "1.50"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("1.50") } else { frag!(p!({ "1.50" })) }), "1.50")) }
    } }
    h_22_l079(b) { let w = "-0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("-0")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("-0")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "-0", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "-0", "b", "-0")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "-0", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("-0"), (("-0")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "-0" }, ({ ("-0") }), a = { "-0" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("-0", x, "-0")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("-0"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("-0" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("-0" = bool!(k), ("-0") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("-0")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "-0" }, x)) }
        13 => { lit(w); end(b, "-0") }
        14 => { let v = "-0"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "-0"; let c = b!(v); let v = "-0"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("-0")) }
        17 => { w!["<p></p>"]; end(b, p!({ "-0"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "-0"; }, { { "-0"; } }, { "-0"; x }, { "-0"; "-0" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "-0" }, loop { break "-0" }, 'q: { break 'q "-0" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "-0" } else { "-0" }, match k { _ => "-0" }, (|| "-0")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("-0"), ["-0"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["-0", "-0"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("-0") } else { frag!(p!({ "-0" })) }), "-0")) }
    } }
    h_22_l080(b) { let w = "1e5"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!("1e5")) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!("1e5")) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, "1e5", x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", "1e5", "b", "1e5")) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = "1e5", b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(("1e5"), (("1e5")))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ "1e5" }, ({ ("1e5") }), a = { "1e5" })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!("1e5", x, "1e5")) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!("1e5"), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!("1e5" = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!("1e5" = bool!(k), ("1e5") = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!("1e5")) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; "1e5" }, x)) }
        13 => { lit(w); end(b, "1e5") }
        14 => { let v = "1e5"; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = "1e5"; let c = b!(v); let v = "1e5"; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some("1e5")) }
        17 => { w!["<p></p>"]; end(b, p!({ "1e5"; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { "1e5"; }, { { "1e5"; } }, { "1e5"; x }, { "1e5"; "1e5" })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { "1e5" }, loop { break "1e5" }, 'q: { break 'q "1e5" })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { "1e5" } else { "1e5" }, match k { _ => "1e5" }, (|| "1e5")())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some("1e5"), ["1e5"][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ["1e5", "1e5"])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!("1e5") } else { frag!(p!({ "1e5" })) }), "1e5")) }
    } }
    h_22_l081(b) { let w = "\u{d}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\u{d}')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\u{d}')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\u{d}', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\u{d}', "b", '\u{d}')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\u{d}', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\u{d}'), (('\u{d}')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\u{d}' }, ({ ('\u{d}') }), a = { '\u{d}' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\u{d}', x, '\u{d}')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\u{d}'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\u{d}' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\u{d}' = bool!(k), ('\u{d}') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\u{d}')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\u{d}' }, x)) }
        13 => { lit(w); end(b, '\u{d}') }
        14 => { let v = '\u{d}'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\u{d}'; let c = b!(v); let v = '\u{d}'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\u{d}')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\u{d}'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\u{d}'; }, { { '\u{d}'; } }, { '\u{d}'; x }, { '\u{d}'; '\u{d}' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\u{d}' }, loop { break '\u{d}' }, 'q: { break 'q '\u{d}' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\u{d}' } else { '\u{d}' }, match k { _ => '\u{d}' }, (|| '\u{d}')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\u{d}'), ['\u{d}'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\u{d}', '\u{d}'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\u{d}') } else { frag!(p!({ '\u{d}' })) }), '\u{d}')) }
    } }
    h_22_l082(b) { let w = "\u{2028}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\u{2028}')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\u{2028}')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\u{2028}', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\u{2028}', "b", '\u{2028}')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\u{2028}', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\u{2028}'), (('\u{2028}')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\u{2028}' }, ({ ('\u{2028}') }), a = { '\u{2028}' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\u{2028}', x, '\u{2028}')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\u{2028}'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\u{2028}' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\u{2028}' = bool!(k), ('\u{2028}') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\u{2028}')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\u{2028}' }, x)) }
        13 => { lit(w); end(b, '\u{2028}') }
        14 => { let v = '\u{2028}'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\u{2028}'; let c = b!(v); let v = '\u{2028}'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\u{2028}')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\u{2028}'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\u{2028}'; }, { { '\u{2028}'; } }, { '\u{2028}'; x }, { '\u{2028}'; '\u{2028}' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\u{2028}' }, loop { break '\u{2028}' }, 'q: { break 'q '\u{2028}' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\u{2028}' } else { '\u{2028}' }, match k { _ => '\u{2028}' }, (|| '\u{2028}')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\u{2028}'), ['\u{2028}'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\u{2028}', '\u{2028}'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\u{2028}') } else { frag!(p!({ '\u{2028}' })) }), '\u{2028}')) }
    } }
    h_22_l083(b) { let w = "\u{85}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\u{85}')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\u{85}')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\u{85}', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\u{85}', "b", '\u{85}')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\u{85}', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\u{85}'), (('\u{85}')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\u{85}' }, ({ ('\u{85}') }), a = { '\u{85}' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\u{85}', x, '\u{85}')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\u{85}'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\u{85}' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\u{85}' = bool!(k), ('\u{85}') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\u{85}')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\u{85}' }, x)) }
        13 => { lit(w); end(b, '\u{85}') }
        14 => { let v = '\u{85}'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\u{85}'; let c = b!(v); let v = '\u{85}'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\u{85}')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\u{85}'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\u{85}'; }, { { '\u{85}'; } }, { '\u{85}'; x }, { '\u{85}'; '\u{85}' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\u{85}' }, loop { break '\u{85}' }, 'q: { break 'q '\u{85}' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\u{85}' } else { '\u{85}' }, match k { _ => '\u{85}' }, (|| '\u{85}')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\u{85}'), ['\u{85}'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\u{85}', '\u{85}'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\u{85}') } else { frag!(p!({ '\u{85}' })) }), '\u{85}')) }
    } }
    h_22_l084(b) { let w = "\u{a0}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\u{a0}')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\u{a0}')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\u{a0}', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\u{a0}', "b", '\u{a0}')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\u{a0}', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\u{a0}'), (('\u{a0}')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\u{a0}' }, ({ ('\u{a0}') }), a = { '\u{a0}' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\u{a0}', x, '\u{a0}')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\u{a0}'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\u{a0}' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\u{a0}' = bool!(k), ('\u{a0}') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\u{a0}')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\u{a0}' }, x)) }
        13 => { lit(w); end(b, '\u{a0}') }
        14 => { let v = '\u{a0}'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\u{a0}'; let c = b!(v); let v = '\u{a0}'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\u{a0}')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\u{a0}'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\u{a0}'; }, { { '\u{a0}'; } }, { '\u{a0}'; x }, { '\u{a0}'; '\u{a0}' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\u{a0}' }, loop { break '\u{a0}' }, 'q: { break 'q '\u{a0}' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\u{a0}' } else { '\u{a0}' }, match k { _ => '\u{a0}' }, (|| '\u{a0}')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\u{a0}'), ['\u{a0}'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\u{a0}', '\u{a0}'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\u{a0}') } else { frag!(p!({ '\u{a0}' })) }), '\u{a0}')) }
    } }
    h_22_l085(b) { let w = "\u{200b}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\u{200b}')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\u{200b}')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\u{200b}', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\u{200b}', "b", '\u{200b}')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\u{200b}', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\u{200b}'), (('\u{200b}')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\u{200b}' }, ({ ('\u{200b}') }), a = { '\u{200b}' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\u{200b}', x, '\u{200b}')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\u{200b}'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\u{200b}' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\u{200b}' = bool!(k), ('\u{200b}') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\u{200b}')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\u{200b}' }, x)) }
        13 => { lit(w); end(b, '\u{200b}') }
        14 => { let v = '\u{200b}'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\u{200b}'; let c = b!(v); let v = '\u{200b}'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\u{200b}')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\u{200b}'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\u{200b}'; }, { { '\u{200b}'; } }, { '\u{200b}'; x }, { '\u{200b}'; '\u{200b}' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\u{200b}' }, loop { break '\u{200b}' }, 'q: { break 'q '\u{200b}' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\u{200b}' } else { '\u{200b}' }, match k { _ => '\u{200b}' }, (|| '\u{200b}')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\u{200b}'), ['\u{200b}'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\u{200b}', '\u{200b}'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\u{200b}') } else { frag!(p!({ '\u{200b}' })) }), '\u{200b}')) }
    } }
    h_22_l086(b) { let w = "\u{feff}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\u{feff}')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\u{feff}')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\u{feff}', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\u{feff}', "b", '\u{feff}')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\u{feff}', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\u{feff}'), (('\u{feff}')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\u{feff}' }, ({ ('\u{feff}') }), a = { '\u{feff}' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\u{feff}', x, '\u{feff}')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\u{feff}'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\u{feff}' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\u{feff}' = bool!(k), ('\u{feff}') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\u{feff}')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\u{feff}' }, x)) }
        13 => { lit(w); end(b, '\u{feff}') }
        14 => { let v = '\u{feff}'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\u{feff}'; let c = b!(v); let v = '\u{feff}'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\u{feff}')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\u{feff}'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\u{feff}'; }, { { '\u{feff}'; } }, { '\u{feff}'; x }, { '\u{feff}'; '\u{feff}' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\u{feff}' }, loop { break '\u{feff}' }, 'q: { break 'q '\u{feff}' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\u{feff}' } else { '\u{feff}' }, match k { _ => '\u{feff}' }, (|| '\u{feff}')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\u{feff}'), ['\u{feff}'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\u{feff}', '\u{feff}'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\u{feff}') } else { frag!(p!({ '\u{feff}' })) }), '\u{feff}')) }
    } }
    h_22_l087(b) { let w = "\u{200d}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\u{200d}')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\u{200d}')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\u{200d}', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\u{200d}', "b", '\u{200d}')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\u{200d}', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\u{200d}'), (('\u{200d}')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\u{200d}' }, ({ ('\u{200d}') }), a = { '\u{200d}' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\u{200d}', x, '\u{200d}')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\u{200d}'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\u{200d}' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\u{200d}' = bool!(k), ('\u{200d}') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\u{200d}')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\u{200d}' }, x)) }
        13 => { lit(w); end(b, '\u{200d}') }
        14 => { let v = '\u{200d}'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\u{200d}'; let c = b!(v); let v = '\u{200d}'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\u{200d}')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\u{200d}'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\u{200d}'; }, { { '\u{200d}'; } }, { '\u{200d}'; x }, { '\u{200d}'; '\u{200d}' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\u{200d}' }, loop { break '\u{200d}' }, 'q: { break 'q '\u{200d}' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\u{200d}' } else { '\u{200d}' }, match k { _ => '\u{200d}' }, (|| '\u{200d}')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\u{200d}'), ['\u{200d}'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\u{200d}', '\u{200d}'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\u{200d}') } else { frag!(p!({ '\u{200d}' })) }), '\u{200d}')) }
    } }
    h_22_l088(b) { let w = "\u{202e}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\u{202e}')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\u{202e}')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\u{202e}', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\u{202e}', "b", '\u{202e}')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\u{202e}', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\u{202e}'), (('\u{202e}')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\u{202e}' }, ({ ('\u{202e}') }), a = { '\u{202e}' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\u{202e}', x, '\u{202e}')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\u{202e}'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\u{202e}' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\u{202e}' = bool!(k), ('\u{202e}') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\u{202e}')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\u{202e}' }, x)) }
        13 => { lit(w); end(b, '\u{202e}') }
        14 => { let v = '\u{202e}'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\u{202e}'; let c = b!(v); let v = '\u{202e}'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\u{202e}')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\u{202e}'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\u{202e}'; }, { { '\u{202e}'; } }, { '\u{202e}'; x }, { '\u{202e}'; '\u{202e}' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\u{202e}' }, loop { break '\u{202e}' }, 'q: { break 'q '\u{202e}' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\u{202e}' } else { '\u{202e}' }, match k { _ => '\u{202e}' }, (|| '\u{202e}')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\u{202e}'), ['\u{202e}'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\u{202e}', '\u{202e}'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\u{202e}') } else { frag!(p!({ '\u{202e}' })) }), '\u{202e}')) }
    } }
    h_22_l089(b) { let w = "\u{fffd}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\u{fffd}')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\u{fffd}')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\u{fffd}', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\u{fffd}', "b", '\u{fffd}')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\u{fffd}', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\u{fffd}'), (('\u{fffd}')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\u{fffd}' }, ({ ('\u{fffd}') }), a = { '\u{fffd}' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\u{fffd}', x, '\u{fffd}')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\u{fffd}'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\u{fffd}' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\u{fffd}' = bool!(k), ('\u{fffd}') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\u{fffd}')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\u{fffd}' }, x)) }
        13 => { lit(w); end(b, '\u{fffd}') }
        14 => { let v = '\u{fffd}'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\u{fffd}'; let c = b!(v); let v = '\u{fffd}'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\u{fffd}')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\u{fffd}'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\u{fffd}'; }, { { '\u{fffd}'; } }, { '\u{fffd}'; x }, { '\u{fffd}'; '\u{fffd}' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\u{fffd}' }, loop { break '\u{fffd}' }, 'q: { break 'q '\u{fffd}' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\u{fffd}' } else { '\u{fffd}' }, match k { _ => '\u{fffd}' }, (|| '\u{fffd}')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\u{fffd}'), ['\u{fffd}'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\u{fffd}', '\u{fffd}'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\u{fffd}') } else { frag!(p!({ '\u{fffd}' })) }), '\u{fffd}')) }
    } }
    h_22_l090(b) { let w = "\u{fffe}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\u{fffe}')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\u{fffe}')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\u{fffe}', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\u{fffe}', "b", '\u{fffe}')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\u{fffe}', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\u{fffe}'), (('\u{fffe}')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\u{fffe}' }, ({ ('\u{fffe}') }), a = { '\u{fffe}' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\u{fffe}', x, '\u{fffe}')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\u{fffe}'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\u{fffe}' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\u{fffe}' = bool!(k), ('\u{fffe}') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\u{fffe}')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\u{fffe}' }, x)) }
        13 => { lit(w); end(b, '\u{fffe}') }
        14 => { let v = '\u{fffe}'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\u{fffe}'; let c = b!(v); let v = '\u{fffe}'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\u{fffe}')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\u{fffe}'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\u{fffe}'; }, { { '\u{fffe}'; } }, { '\u{fffe}'; x }, { '\u{fffe}'; '\u{fffe}' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\u{fffe}' }, loop { break '\u{fffe}' }, 'q: { break 'q '\u{fffe}' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\u{fffe}' } else { '\u{fffe}' }, match k { _ => '\u{fffe}' }, (|| '\u{fffe}')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\u{fffe}'), ['\u{fffe}'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\u{fffe}', '\u{fffe}'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\u{fffe}') } else { frag!(p!({ '\u{fffe}' })) }), '\u{fffe}')) }
    } }
    h_22_l091(b) { let w = "\u{10fffe}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\u{10fffe}')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\u{10fffe}')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\u{10fffe}', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\u{10fffe}', "b", '\u{10fffe}')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\u{10fffe}', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\u{10fffe}'), (('\u{10fffe}')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\u{10fffe}' }, ({ ('\u{10fffe}') }), a = { '\u{10fffe}' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\u{10fffe}', x, '\u{10fffe}')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\u{10fffe}'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\u{10fffe}' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\u{10fffe}' = bool!(k), ('\u{10fffe}') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\u{10fffe}')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\u{10fffe}' }, x)) }
        13 => { lit(w); end(b, '\u{10fffe}') }
        14 => { let v = '\u{10fffe}'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\u{10fffe}'; let c = b!(v); let v = '\u{10fffe}'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\u{10fffe}')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\u{10fffe}'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\u{10fffe}'; }, { { '\u{10fffe}'; } }, { '\u{10fffe}'; x }, { '\u{10fffe}'; '\u{10fffe}' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\u{10fffe}' }, loop { break '\u{10fffe}' }, 'q: { break 'q '\u{10fffe}' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\u{10fffe}' } else { '\u{10fffe}' }, match k { _ => '\u{10fffe}' }, (|| '\u{10fffe}')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\u{10fffe}'), ['\u{10fffe}'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\u{10fffe}', '\u{10fffe}'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\u{10fffe}') } else { frag!(p!({ '\u{10fffe}' })) }), '\u{10fffe}')) }
    } }
    h_22_l092(b) { let w = "\u{300}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\u{300}')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\u{300}')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\u{300}', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\u{300}', "b", '\u{300}')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\u{300}', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\u{300}'), (('\u{300}')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\u{300}' }, ({ ('\u{300}') }), a = { '\u{300}' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\u{300}', x, '\u{300}')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\u{300}'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\u{300}' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\u{300}' = bool!(k), ('\u{300}') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\u{300}')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\u{300}' }, x)) }
        13 => { lit(w); end(b, '\u{300}') }
        14 => { let v = '\u{300}'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\u{300}'; let c = b!(v); let v = '\u{300}'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\u{300}')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\u{300}'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\u{300}'; }, { { '\u{300}'; } }, { '\u{300}'; x }, { '\u{300}'; '\u{300}' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\u{300}' }, loop { break '\u{300}' }, 'q: { break 'q '\u{300}' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\u{300}' } else { '\u{300}' }, match k { _ => '\u{300}' }, (|| '\u{300}')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\u{300}'), ['\u{300}'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\u{300}', '\u{300}'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\u{300}') } else { frag!(p!({ '\u{300}' })) }), '\u{300}')) }
    } }
    h_22_l093(b) { let w = "Å"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('Å')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('Å')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 'Å', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 'Å', "b", 'Å')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 'Å', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('Å'), (('Å')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 'Å' }, ({ ('Å') }), a = { 'Å' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('Å', x, 'Å')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('Å'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('Å' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('Å' = bool!(k), ('Å') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('Å')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 'Å' }, x)) }
        13 => { lit(w); end(b, 'Å') }
        14 => { let v = 'Å'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 'Å'; let c = b!(v); let v = 'Å'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('Å')) }
        17 => { w!["<p></p>"]; end(b, p!({ 'Å'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 'Å'; }, { { 'Å'; } }, { 'Å'; x }, { 'Å'; 'Å' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 'Å' }, loop { break 'Å' }, 'q: { break 'q 'Å' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 'Å' } else { 'Å' }, match k { _ => 'Å' }, (|| 'Å')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('Å'), ['Å'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['Å', 'Å'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('Å') } else { frag!(p!({ 'Å' })) }), 'Å')) }
    } }
    h_22_l094(b) { let w = "ﬁ"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('ﬁ')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('ﬁ')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 'ﬁ', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 'ﬁ', "b", 'ﬁ')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 'ﬁ', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('ﬁ'), (('ﬁ')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 'ﬁ' }, ({ ('ﬁ') }), a = { 'ﬁ' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('ﬁ', x, 'ﬁ')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('ﬁ'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('ﬁ' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('ﬁ' = bool!(k), ('ﬁ') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('ﬁ')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 'ﬁ' }, x)) }
        13 => { lit(w); end(b, 'ﬁ') }
        14 => { let v = 'ﬁ'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 'ﬁ'; let c = b!(v); let v = 'ﬁ'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('ﬁ')) }
        17 => { w!["<p></p>"]; end(b, p!({ 'ﬁ'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 'ﬁ'; }, { { 'ﬁ'; } }, { 'ﬁ'; x }, { 'ﬁ'; 'ﬁ' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 'ﬁ' }, loop { break 'ﬁ' }, 'q: { break 'q 'ﬁ' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 'ﬁ' } else { 'ﬁ' }, match k { _ => 'ﬁ' }, (|| 'ﬁ')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('ﬁ'), ['ﬁ'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['ﬁ', 'ﬁ'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('ﬁ') } else { frag!(p!({ 'ﬁ' })) }), 'ﬁ')) }
    } }
    h_22_l095(b) { let w = "\u{e000}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\u{e000}')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\u{e000}')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\u{e000}', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\u{e000}', "b", '\u{e000}')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\u{e000}', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\u{e000}'), (('\u{e000}')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\u{e000}' }, ({ ('\u{e000}') }), a = { '\u{e000}' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\u{e000}', x, '\u{e000}')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\u{e000}'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\u{e000}' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\u{e000}' = bool!(k), ('\u{e000}') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\u{e000}')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\u{e000}' }, x)) }
        13 => { lit(w); end(b, '\u{e000}') }
        14 => { let v = '\u{e000}'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\u{e000}'; let c = b!(v); let v = '\u{e000}'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\u{e000}')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\u{e000}'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\u{e000}'; }, { { '\u{e000}'; } }, { '\u{e000}'; x }, { '\u{e000}'; '\u{e000}' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\u{e000}' }, loop { break '\u{e000}' }, 'q: { break 'q '\u{e000}' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\u{e000}' } else { '\u{e000}' }, match k { _ => '\u{e000}' }, (|| '\u{e000}')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\u{e000}'), ['\u{e000}'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\u{e000}', '\u{e000}'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\u{e000}') } else { frag!(p!({ '\u{e000}' })) }), '\u{e000}')) }
    } }
    h_22_l096(b) { let w = "\u{2060}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\u{2060}')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\u{2060}')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\u{2060}', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\u{2060}', "b", '\u{2060}')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\u{2060}', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\u{2060}'), (('\u{2060}')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\u{2060}' }, ({ ('\u{2060}') }), a = { '\u{2060}' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\u{2060}', x, '\u{2060}')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\u{2060}'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\u{2060}' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\u{2060}' = bool!(k), ('\u{2060}') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\u{2060}')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\u{2060}' }, x)) }
        13 => { lit(w); end(b, '\u{2060}') }
        14 => { let v = '\u{2060}'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\u{2060}'; let c = b!(v); let v = '\u{2060}'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\u{2060}')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\u{2060}'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\u{2060}'; }, { { '\u{2060}'; } }, { '\u{2060}'; x }, { '\u{2060}'; '\u{2060}' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\u{2060}' }, loop { break '\u{2060}' }, 'q: { break 'q '\u{2060}' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\u{2060}' } else { '\u{2060}' }, match k { _ => '\u{2060}' }, (|| '\u{2060}')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\u{2060}'), ['\u{2060}'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\u{2060}', '\u{2060}'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\u{2060}') } else { frag!(p!({ '\u{2060}' })) }), '\u{2060}')) }
    } }
    h_22_l097(b) { let w = "\\"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\\')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\\')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\\', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\\', "b", '\\')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\\', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\\'), (('\\')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\\' }, ({ ('\\') }), a = { '\\' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\\', x, '\\')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\\'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\\' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\\' = bool!(k), ('\\') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\\')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\\' }, x)) }
        13 => { lit(w); end(b, '\\') }
        14 => { let v = '\\'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\\'; let c = b!(v); let v = '\\'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\\')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\\'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\\'; }, { { '\\'; } }, { '\\'; x }, { '\\'; '\\' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\\' }, loop { break '\\' }, 'q: { break 'q '\\' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\\' } else { '\\' }, match k { _ => '\\' }, (|| '\\')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\\'), ['\\'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\\', '\\'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\\') } else { frag!(p!({ '\\' })) }), '\\')) }
    } }
    h_22_l098(b) { let w = "`"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('`')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('`')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '`', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '`', "b", '`')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '`', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('`'), (('`')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '`' }, ({ ('`') }), a = { '`' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('`', x, '`')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('`'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('`' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('`' = bool!(k), ('`') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('`')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '`' }, x)) }
        13 => { lit(w); end(b, '`') }
        14 => { let v = '`'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '`'; let c = b!(v); let v = '`'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('`')) }
        17 => { w!["<p></p>"]; end(b, p!({ '`'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '`'; }, { { '`'; } }, { '`'; x }, { '`'; '`' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '`' }, loop { break '`' }, 'q: { break 'q '`' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '`' } else { '`' }, match k { _ => '`' }, (|| '`')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('`'), ['`'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['`', '`'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('`') } else { frag!(p!({ '`' })) }), '`')) }
    } }
    h_22_l099(b) { let w = "="; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('=')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('=')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '=', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '=', "b", '=')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '=', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('='), (('=')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '=' }, ({ ('=') }), a = { '=' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('=', x, '=')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('='), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('=' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('=' = bool!(k), ('=') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('=')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '=' }, x)) }
        13 => { lit(w); end(b, '=') }
        14 => { let v = '='; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '='; let c = b!(v); let v = '='; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('=')) }
        17 => { w!["<p></p>"]; end(b, p!({ '='; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '='; }, { { '='; } }, { '='; x }, { '='; '=' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '=' }, loop { break '=' }, 'q: { break 'q '=' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '=' } else { '=' }, match k { _ => '=' }, (|| '=')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('='), ['='][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['=', '='])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('=') } else { frag!(p!({ '=' })) }), '=')) }
    } }
    h_22_l100(b) { let w = "a"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('a')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('a')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 'a', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 'a', "b", 'a')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 'a', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('a'), (('a')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 'a' }, ({ ('a') }), a = { 'a' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('a', x, 'a')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('a'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('a' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('a' = bool!(k), ('a') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('a')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 'a' }, x)) }
        13 => { lit(w); end(b, 'a') }
        14 => { let v = 'a'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 'a'; let c = b!(v); let v = 'a'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('a')) }
        17 => { w!["<p></p>"]; end(b, p!({ 'a'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 'a'; }, { { 'a'; } }, { 'a'; x }, { 'a'; 'a' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 'a' }, loop { break 'a' }, 'q: { break 'q 'a' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 'a' } else { 'a' }, match k { _ => 'a' }, (|| 'a')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('a'), ['a'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['a', 'a'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('a') } else { frag!(p!({ 'a' })) }), 'a')) }
    } }
    h_22_l101(b) { let w = "Z"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('Z')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('Z')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 'Z', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 'Z', "b", 'Z')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 'Z', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('Z'), (('Z')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 'Z' }, ({ ('Z') }), a = { 'Z' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('Z', x, 'Z')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('Z'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('Z' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('Z' = bool!(k), ('Z') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('Z')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 'Z' }, x)) }
        13 => { lit(w); end(b, 'Z') }
        14 => { let v = 'Z'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 'Z'; let c = b!(v); let v = 'Z'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('Z')) }
        17 => { w!["<p></p>"]; end(b, p!({ 'Z'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 'Z'; }, { { 'Z'; } }, { 'Z'; x }, { 'Z'; 'Z' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 'Z' }, loop { break 'Z' }, 'q: { break 'q 'Z' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 'Z' } else { 'Z' }, match k { _ => 'Z' }, (|| 'Z')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('Z'), ['Z'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['Z', 'Z'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('Z') } else { frag!(p!({ 'Z' })) }), 'Z')) }
    } }
    h_22_l102(b) { let w = "0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('0')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('0')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '0', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '0', "b", '0')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '0', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('0'), (('0')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '0' }, ({ ('0') }), a = { '0' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('0', x, '0')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('0'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('0' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('0' = bool!(k), ('0') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('0')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '0' }, x)) }
        13 => { lit(w); end(b, '0') }
        14 => { let v = '0'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '0'; let c = b!(v); let v = '0'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('0')) }
        17 => { w!["<p></p>"]; end(b, p!({ '0'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '0'; }, { { '0'; } }, { '0'; x }, { '0'; '0' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '0' }, loop { break '0' }, 'q: { break 'q '0' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '0' } else { '0' }, match k { _ => '0' }, (|| '0')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('0'), ['0'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['0', '0'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('0') } else { frag!(p!({ '0' })) }), '0')) }
    } }
    h_22_l103(b) { let w = " "; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(' ')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(' ')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, ' ', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", ' ', "b", ' ')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = ' ', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((' '), ((' ')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ ' ' }, ({ (' ') }), a = { ' ' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(' ', x, ' ')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(' '), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(' ' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(' ' = bool!(k), (' ') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(' ')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; ' ' }, x)) }
        13 => { lit(w); end(b, ' ') }
        14 => { let v = ' '; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = ' '; let c = b!(v); let v = ' '; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(' ')) }
        17 => { w!["<p></p>"]; end(b, p!({ ' '; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { ' '; }, { { ' '; } }, { ' '; x }, { ' '; ' ' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { ' ' }, loop { break ' ' }, 'q: { break 'q ' ' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { ' ' } else { ' ' }, match k { _ => ' ' }, (|| ' ')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(' '), [' '][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [' ', ' '])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(' ') } else { frag!(p!({ ' ' })) }), ' ')) }
    } }
    h_22_l104(b) { let w = "é"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('é')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('é')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 'é', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 'é', "b", 'é')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 'é', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('é'), (('é')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 'é' }, ({ ('é') }), a = { 'é' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('é', x, 'é')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('é'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('é' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('é' = bool!(k), ('é') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('é')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 'é' }, x)) }
        13 => { lit(w); end(b, 'é') }
        14 => { let v = 'é'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 'é'; let c = b!(v); let v = 'é'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('é')) }
        17 => { w!["<p></p>"]; end(b, p!({ 'é'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 'é'; }, { { 'é'; } }, { 'é'; x }, { 'é'; 'é' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 'é' }, loop { break 'é' }, 'q: { break 'q 'é' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 'é' } else { 'é' }, match k { _ => 'é' }, (|| 'é')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('é'), ['é'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['é', 'é'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('é') } else { frag!(p!({ 'é' })) }), 'é')) }
    } }
    h_22_l105(b) { let w = "\u{1f600}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('😀')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('😀')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '😀', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '😀', "b", '😀')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '😀', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('😀'), (('😀')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '😀' }, ({ ('😀') }), a = { '😀' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('😀', x, '😀')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('😀'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('😀' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('😀' = bool!(k), ('😀') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('😀')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '😀' }, x)) }
        13 => { lit(w); end(b, '😀') }
        14 => { let v = '😀'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '😀'; let c = b!(v); let v = '😀'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('😀')) }
        17 => { w!["<p></p>"]; end(b, p!({ '😀'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '😀'; }, { { '😀'; } }, { '😀'; x }, { '😀'; '😀' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '😀' }, loop { break '😀' }, 'q: { break 'q '😀' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '😀' } else { '😀' }, match k { _ => '😀' }, (|| '😀')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('😀'), ['😀'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['😀', '😀'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('😀') } else { frag!(p!({ '😀' })) }), '😀')) }
    } }
    h_22_l106(b) { let w = "世"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('世')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('世')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '世', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '世', "b", '世')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '世', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('世'), (('世')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '世' }, ({ ('世') }), a = { '世' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('世', x, '世')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('世'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('世' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('世' = bool!(k), ('世') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('世')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '世' }, x)) }
        13 => { lit(w); end(b, '世') }
        14 => { let v = '世'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '世'; let c = b!(v); let v = '世'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('世')) }
        17 => { w!["<p></p>"]; end(b, p!({ '世'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '世'; }, { { '世'; } }, { '世'; x }, { '世'; '世' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '世' }, loop { break '世' }, 'q: { break 'q '世' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '世' } else { '世' }, match k { _ => '世' }, (|| '世')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('世'), ['世'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['世', '世'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('世') } else { frag!(p!({ '世' })) }), '世')) }
    } }
    h_22_l107(b) { let w = "&lt;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('<')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('<')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '<', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '<', "b", '<')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '<', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('<'), (('<')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '<' }, ({ ('<') }), a = { '<' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('<', x, '<')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('<'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('<' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('<' = bool!(k), ('<') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('<')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '<' }, x)) }
        13 => { lit(w); end(b, '<') }
        14 => { let v = '<'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '<'; let c = b!(v); let v = '<'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('<')) }
        17 => { w!["<p></p>"]; end(b, p!({ '<'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '<'; }, { { '<'; } }, { '<'; x }, { '<'; '<' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '<' }, loop { break '<' }, 'q: { break 'q '<' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '<' } else { '<' }, match k { _ => '<' }, (|| '<')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('<'), ['<'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['<', '<'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('<') } else { frag!(p!({ '<' })) }), '<')) }
    } }
    h_22_l108(b) { let w = "&gt;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('>')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('>')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '>', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '>', "b", '>')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '>', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('>'), (('>')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '>' }, ({ ('>') }), a = { '>' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('>', x, '>')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('>'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('>' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('>' = bool!(k), ('>') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('>')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '>' }, x)) }
        13 => { lit(w); end(b, '>') }
        14 => { let v = '>'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '>'; let c = b!(v); let v = '>'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('>')) }
        17 => { w!["<p></p>"]; end(b, p!({ '>'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '>'; }, { { '>'; } }, { '>'; x }, { '>'; '>' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '>' }, loop { break '>' }, 'q: { break 'q '>' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '>' } else { '>' }, match k { _ => '>' }, (|| '>')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('>'), ['>'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['>', '>'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('>') } else { frag!(p!({ '>' })) }), '>')) }
    } }
    h_22_l109(b) { let w = "&amp;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('&')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('&')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '&', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '&', "b", '&')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '&', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('&'), (('&')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '&' }, ({ ('&') }), a = { '&' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('&', x, '&')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('&'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('&' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('&' = bool!(k), ('&') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('&')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '&' }, x)) }
        13 => { lit(w); end(b, '&') }
        14 => { let v = '&'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '&'; let c = b!(v); let v = '&'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('&')) }
        17 => { w!["<p></p>"]; end(b, p!({ '&'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '&'; }, { { '&'; } }, { '&'; x }, { '&'; '&' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '&' }, loop { break '&' }, 'q: { break 'q '&' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '&' } else { '&' }, match k { _ => '&' }, (|| '&')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('&'), ['&'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['&', '&'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('&') } else { frag!(p!({ '&' })) }), '&')) }
    } }
    h_22_l110(b) { let w = "&quot;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('"')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('"')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '"', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '"', "b", '"')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '"', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('"'), (('"')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '"' }, ({ ('"') }), a = { '"' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('"', x, '"')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('"'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('"' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('"' = bool!(k), ('"') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('"')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '"' }, x)) }
        13 => { lit(w); end(b, '"') }
        14 => { let v = '"'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '"'; let c = b!(v); let v = '"'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('"')) }
        17 => { w!["<p></p>"]; end(b, p!({ '"'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '"'; }, { { '"'; } }, { '"'; x }, { '"'; '"' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '"' }, loop { break '"' }, 'q: { break 'q '"' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '"' } else { '"' }, match k { _ => '"' }, (|| '"')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('"'), ['"'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['"', '"'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('"') } else { frag!(p!({ '"' })) }), '"')) }
    } }
    h_22_l111(b) { let w = "&#39;"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\'')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\'')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\'', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\'', "b", '\'')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\'', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\''), (('\'')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\'' }, ({ ('\'') }), a = { '\'' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\'', x, '\'')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\''), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\'' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\'' = bool!(k), ('\'') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\'')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\'' }, x)) }
        13 => { lit(w); end(b, '\'') }
        14 => { let v = '\''; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\''; let c = b!(v); let v = '\''; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\'')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\''; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\''; }, { { '\''; } }, { '\''; x }, { '\''; '\'' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\'' }, loop { break '\'' }, 'q: { break 'q '\'' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\'' } else { '\'' }, match k { _ => '\'' }, (|| '\'')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\''), ['\''][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\'', '\''])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\'') } else { frag!(p!({ '\'' })) }), '\'')) }
    } }
    h_22_l112(b) { let w = "\u{a}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\n')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\n')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\n', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\n', "b", '\n')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\n', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\n'), (('\n')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\n' }, ({ ('\n') }), a = { '\n' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\n', x, '\n')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\n'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\n' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\n' = bool!(k), ('\n') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\n')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\n' }, x)) }
        13 => { lit(w); end(b, '\n') }
        14 => { let v = '\n'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\n'; let c = b!(v); let v = '\n'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\n')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\n'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\n'; }, { { '\n'; } }, { '\n'; x }, { '\n'; '\n' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\n' }, loop { break '\n' }, 'q: { break 'q '\n' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\n' } else { '\n' }, match k { _ => '\n' }, (|| '\n')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\n'), ['\n'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\n', '\n'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\n') } else { frag!(p!({ '\n' })) }), '\n')) }
    } }
    h_22_l113(b) { let w = "\u{0}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\0')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\0')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\0', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\0', "b", '\0')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\0', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\0'), (('\0')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\0' }, ({ ('\0') }), a = { '\0' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\0', x, '\0')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\0'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\0' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\0' = bool!(k), ('\0') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\0')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\0' }, x)) }
        13 => { lit(w); end(b, '\0') }
        14 => { let v = '\0'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\0'; let c = b!(v); let v = '\0'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\0')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\0'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\0'; }, { { '\0'; } }, { '\0'; x }, { '\0'; '\0' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\0' }, loop { break '\0' }, 'q: { break 'q '\0' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\0' } else { '\0' }, match k { _ => '\0' }, (|| '\0')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\0'), ['\0'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\0', '\0'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\0') } else { frag!(p!({ '\0' })) }), '\0')) }
    } }
    h_22_l114(b) { let w = "\u{10ffff}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\u{10ffff}')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\u{10ffff}')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\u{10ffff}', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\u{10ffff}', "b", '\u{10ffff}')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\u{10ffff}', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\u{10ffff}'), (('\u{10ffff}')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\u{10ffff}' }, ({ ('\u{10ffff}') }), a = { '\u{10ffff}' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\u{10ffff}', x, '\u{10ffff}')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\u{10ffff}'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\u{10ffff}' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\u{10ffff}' = bool!(k), ('\u{10ffff}') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\u{10ffff}')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\u{10ffff}' }, x)) }
        13 => { lit(w); end(b, '\u{10ffff}') }
        14 => { let v = '\u{10ffff}'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\u{10ffff}'; let c = b!(v); let v = '\u{10ffff}'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\u{10ffff}')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\u{10ffff}'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\u{10ffff}'; }, { { '\u{10ffff}'; } }, { '\u{10ffff}'; x }, { '\u{10ffff}'; '\u{10ffff}' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\u{10ffff}' }, loop { break '\u{10ffff}' }, 'q: { break 'q '\u{10ffff}' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\u{10ffff}' } else { '\u{10ffff}' }, match k { _ => '\u{10ffff}' }, (|| '\u{10ffff}')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\u{10ffff}'), ['\u{10ffff}'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\u{10ffff}', '\u{10ffff}'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\u{10ffff}') } else { frag!(p!({ '\u{10ffff}' })) }), '\u{10ffff}')) }
    } }
    h_22_l115(b) { let w = "\u{7f}"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\x7f')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\x7f')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\x7f', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\x7f', "b", '\x7f')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\x7f', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\x7f'), (('\x7f')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\x7f' }, ({ ('\x7f') }), a = { '\x7f' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\x7f', x, '\x7f')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\x7f'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\x7f' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\x7f' = bool!(k), ('\x7f') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\x7f')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\x7f' }, x)) }
        13 => { lit(w); end(b, '\x7f') }
        14 => { let v = '\x7f'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\x7f'; let c = b!(v); let v = '\x7f'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\x7f')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\x7f'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\x7f'; }, { { '\x7f'; } }, { '\x7f'; x }, { '\x7f'; '\x7f' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\x7f' }, loop { break '\x7f' }, 'q: { break 'q '\x7f' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\x7f' } else { '\x7f' }, match k { _ => '\x7f' }, (|| '\x7f')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\x7f'), ['\x7f'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\x7f', '\x7f'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\x7f') } else { frag!(p!({ '\x7f' })) }), '\x7f')) }
    } }
    h_22_l116(b) { let w = "\\"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!('\\')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!('\\')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, '\\', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", '\\', "b", '\\')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = '\\', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!(('\\'), (('\\')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ '\\' }, ({ ('\\') }), a = { '\\' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!('\\', x, '\\')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!('\\'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!('\\' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!('\\' = bool!(k), ('\\') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!('\\')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; '\\' }, x)) }
        13 => { lit(w); end(b, '\\') }
        14 => { let v = '\\'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = '\\'; let c = b!(v); let v = '\\'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some('\\')) }
        17 => { w!["<p></p>"]; end(b, p!({ '\\'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { '\\'; }, { { '\\'; } }, { '\\'; x }, { '\\'; '\\' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { '\\' }, loop { break '\\' }, 'q: { break 'q '\\' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { '\\' } else { '\\' }, match k { _ => '\\' }, (|| '\\')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some('\\'), ['\\'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", ['\\', '\\'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!('\\') } else { frag!(p!({ '\\' })) }), '\\')) }
    } }
    h_22_l117(b) { let w = "97"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(b'a')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(b'a')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, b'a', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", b'a', "b", b'a')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = b'a', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((b'a'), ((b'a')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ b'a' }, ({ (b'a') }), a = { b'a' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(b'a', x, b'a')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(b'a'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(b'a' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(b'a' = bool!(k), (b'a') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(b'a')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; b'a' }, x)) }
        13 => { lit(w); end(b, b'a') }
        14 => { let v = b'a'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = b'a'; let c = b!(v); let v = b'a'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(b'a')) }
        17 => { w!["<p></p>"]; end(b, p!({ b'a'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { b'a'; }, { { b'a'; } }, { b'a'; x }, { b'a'; b'a' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { b'a' }, loop { break b'a' }, 'q: { break 'q b'a' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { b'a' } else { b'a' }, match k { _ => b'a' }, (|| b'a')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(b'a'), [b'a'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [b'a', b'a'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(b'a') } else { frag!(p!({ b'a' })) }), b'a')) }
    } }
    h_22_l118(b) { let w = "255"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(b'\xff')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(b'\xff')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, b'\xff', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", b'\xff', "b", b'\xff')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = b'\xff', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((b'\xff'), ((b'\xff')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ b'\xff' }, ({ (b'\xff') }), a = { b'\xff' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(b'\xff', x, b'\xff')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(b'\xff'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(b'\xff' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(b'\xff' = bool!(k), (b'\xff') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(b'\xff')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; b'\xff' }, x)) }
        13 => { lit(w); end(b, b'\xff') }
        14 => { let v = b'\xff'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = b'\xff'; let c = b!(v); let v = b'\xff'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(b'\xff')) }
        17 => { w!["<p></p>"]; end(b, p!({ b'\xff'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { b'\xff'; }, { { b'\xff'; } }, { b'\xff'; x }, { b'\xff'; b'\xff' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { b'\xff' }, loop { break b'\xff' }, 'q: { break 'q b'\xff' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { b'\xff' } else { b'\xff' }, match k { _ => b'\xff' }, (|| b'\xff')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(b'\xff'), [b'\xff'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [b'\xff', b'\xff'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(b'\xff') } else { frag!(p!({ b'\xff' })) }), b'\xff')) }
    } }
    h_22_l119(b) { let w = "10"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(b'\n')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(b'\n')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, b'\n', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", b'\n', "b", b'\n')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = b'\n', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((b'\n'), ((b'\n')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ b'\n' }, ({ (b'\n') }), a = { b'\n' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(b'\n', x, b'\n')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(b'\n'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(b'\n' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(b'\n' = bool!(k), (b'\n') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(b'\n')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; b'\n' }, x)) }
        13 => { lit(w); end(b, b'\n') }
        14 => { let v = b'\n'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = b'\n'; let c = b!(v); let v = b'\n'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(b'\n')) }
        17 => { w!["<p></p>"]; end(b, p!({ b'\n'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { b'\n'; }, { { b'\n'; } }, { b'\n'; x }, { b'\n'; b'\n' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { b'\n' }, loop { break b'\n' }, 'q: { break 'q b'\n' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { b'\n' } else { b'\n' }, match k { _ => b'\n' }, (|| b'\n')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(b'\n'), [b'\n'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [b'\n', b'\n'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(b'\n') } else { frag!(p!({ b'\n' })) }), b'\n')) }
    } }
    h_22_l120(b) { let w = "60"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(b'<')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(b'<')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, b'<', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", b'<', "b", b'<')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = b'<', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((b'<'), ((b'<')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ b'<' }, ({ (b'<') }), a = { b'<' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(b'<', x, b'<')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(b'<'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(b'<' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(b'<' = bool!(k), (b'<') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(b'<')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; b'<' }, x)) }
        13 => { lit(w); end(b, b'<') }
        14 => { let v = b'<'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = b'<'; let c = b!(v); let v = b'<'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(b'<')) }
        17 => { w!["<p></p>"]; end(b, p!({ b'<'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { b'<'; }, { { b'<'; } }, { b'<'; x }, { b'<'; b'<' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { b'<' }, loop { break b'<' }, 'q: { break 'q b'<' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { b'<' } else { b'<' }, match k { _ => b'<' }, (|| b'<')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(b'<'), [b'<'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [b'<', b'<'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(b'<') } else { frag!(p!({ b'<' })) }), b'<')) }
    } }
    h_22_l121(b) { let w = "39"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(b'\'')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(b'\'')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, b'\'', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", b'\'', "b", b'\'')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = b'\'', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((b'\''), ((b'\'')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ b'\'' }, ({ (b'\'') }), a = { b'\'' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(b'\'', x, b'\'')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(b'\''), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(b'\'' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(b'\'' = bool!(k), (b'\'') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(b'\'')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; b'\'' }, x)) }
        13 => { lit(w); end(b, b'\'') }
        14 => { let v = b'\''; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = b'\''; let c = b!(v); let v = b'\''; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(b'\'')) }
        17 => { w!["<p></p>"]; end(b, p!({ b'\''; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { b'\''; }, { { b'\''; } }, { b'\''; x }, { b'\''; b'\'' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { b'\'' }, loop { break b'\'' }, 'q: { break 'q b'\'' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { b'\'' } else { b'\'' }, match k { _ => b'\'' }, (|| b'\'')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(b'\''), [b'\''][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [b'\'', b'\''])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(b'\'') } else { frag!(p!({ b'\'' })) }), b'\'')) }
    } }
    h_22_l122(b) { let w = "0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(b'\0')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(b'\0')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, b'\0', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", b'\0', "b", b'\0')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = b'\0', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((b'\0'), ((b'\0')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ b'\0' }, ({ (b'\0') }), a = { b'\0' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(b'\0', x, b'\0')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(b'\0'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(b'\0' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(b'\0' = bool!(k), (b'\0') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(b'\0')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; b'\0' }, x)) }
        13 => { lit(w); end(b, b'\0') }
        14 => { let v = b'\0'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = b'\0'; let c = b!(v); let v = b'\0'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(b'\0')) }
        17 => { w!["<p></p>"]; end(b, p!({ b'\0'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { b'\0'; }, { { b'\0'; } }, { b'\0'; x }, { b'\0'; b'\0' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { b'\0' }, loop { break b'\0' }, 'q: { break 'q b'\0' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { b'\0' } else { b'\0' }, match k { _ => b'\0' }, (|| b'\0')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(b'\0'), [b'\0'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [b'\0', b'\0'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(b'\0') } else { frag!(p!({ b'\0' })) }), b'\0')) }
    } }
    h_22_l123(b) { let w = "57"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(b'9')) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(b'9')) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, b'9', x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", b'9', "b", b'9')) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = b'9', b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((b'9'), ((b'9')))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ b'9' }, ({ (b'9') }), a = { b'9' })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(b'9', x, b'9')) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(b'9'), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(b'9' = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(b'9' = bool!(k), (b'9') = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(b'9')) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; b'9' }, x)) }
        13 => { lit(w); end(b, b'9') }
        14 => { let v = b'9'; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = b'9'; let c = b!(v); let v = b'9'; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(b'9')) }
        17 => { w!["<p></p>"]; end(b, p!({ b'9'; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { b'9'; }, { { b'9'; } }, { b'9'; x }, { b'9'; b'9' })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { b'9' }, loop { break b'9' }, 'q: { break 'q b'9' })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { b'9' } else { b'9' }, match k { _ => b'9' }, (|| b'9')())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(b'9'), [b'9'][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [b'9', b'9'])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(b'9') } else { frag!(p!({ b'9' })) }), b'9')) }
    } }
    h_22_l124(b) { let w = "true"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(true)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(true)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, true, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", true, "b", true)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = true, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((true), ((true)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ true }, ({ (true) }), a = { true })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(true, x, true)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(true), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(true = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(true = bool!(k), (true) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(true)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; true }, x)) }
        13 => { lit(w); end(b, true) }
        14 => { let v = true; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = true; let c = b!(v); let v = true; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(true)) }
        17 => { w!["<p></p>"]; end(b, p!({ true; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { true; }, { { true; } }, { true; x }, { true; true })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { true }, loop { break true }, 'q: { break 'q true })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { true } else { true }, match k { _ => true }, (|| true)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(true), [true][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [true, true])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(true) } else { frag!(p!({ true })) }), true)) }
    } }
    h_22_l125(b) { let w = "false"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(false)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(false)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, false, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", false, "b", false)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = false, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((false), ((false)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ false }, ({ (false) }), a = { false })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(false, x, false)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(false), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(false = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(false = bool!(k), (false) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(false)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; false }, x)) }
        13 => { lit(w); end(b, false) }
        14 => { let v = false; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = false; let c = b!(v); let v = false; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(false)) }
        17 => { w!["<p></p>"]; end(b, p!({ false; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { false; }, { { false; } }, { false; x }, { false; false })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { false }, loop { break false }, 'q: { break 'q false })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { false } else { false }, match k { _ => false }, (|| false)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(false), [false][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [false, false])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(false) } else { frag!(p!({ false })) }), false)) }
    } }
    h_22_l126(b) { let w = "0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0, "b", 0)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0), ((0)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0 }, ({ (0) }), a = { 0 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0, x, 0)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0 = bool!(k), (0) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0 }, x)) }
        13 => { lit(w); end(b, 0) }
        14 => { let v = 0; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0; let c = b!(v); let v = 0; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0; }, { { 0; } }, { 0; x }, { 0; 0 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0 }, loop { break 0 }, 'q: { break 'q 0 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0 } else { 0 }, match k { _ => 0 }, (|| 0)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0), [0][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0, 0])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0) } else { frag!(p!({ 0 })) }), 0)) }
    } }
    h_22_l127(b) { let w = "1"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1, "b", 1)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1), ((1)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1 }, ({ (1) }), a = { 1 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1, x, 1)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1 = bool!(k), (1) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1 }, x)) }
        13 => { lit(w); end(b, 1) }
        14 => { let v = 1; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1; let c = b!(v); let v = 1; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1; }, { { 1; } }, { 1; x }, { 1; 1 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1 }, loop { break 1 }, 'q: { break 'q 1 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1 } else { 1 }, match k { _ => 1 }, (|| 1)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1), [1][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1, 1])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1) } else { frag!(p!({ 1 })) }), 1)) }
    } }
    h_22_l128(b) { let w = "9"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(9)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(9)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 9, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 9, "b", 9)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 9, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((9), ((9)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 9 }, ({ (9) }), a = { 9 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(9, x, 9)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(9), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(9 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(9 = bool!(k), (9) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(9)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 9 }, x)) }
        13 => { lit(w); end(b, 9) }
        14 => { let v = 9; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 9; let c = b!(v); let v = 9; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(9)) }
        17 => { w!["<p></p>"]; end(b, p!({ 9; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 9; }, { { 9; } }, { 9; x }, { 9; 9 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 9 }, loop { break 9 }, 'q: { break 'q 9 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 9 } else { 9 }, match k { _ => 9 }, (|| 9)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(9), [9][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [9, 9])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(9) } else { frag!(p!({ 9 })) }), 9)) }
    } }
    h_22_l129(b) { let w = "10"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(10)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(10)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 10, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 10, "b", 10)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 10, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((10), ((10)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 10 }, ({ (10) }), a = { 10 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(10, x, 10)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(10), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(10 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(10 = bool!(k), (10) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(10)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 10 }, x)) }
        13 => { lit(w); end(b, 10) }
        14 => { let v = 10; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 10; let c = b!(v); let v = 10; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(10)) }
        17 => { w!["<p></p>"]; end(b, p!({ 10; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 10; }, { { 10; } }, { 10; x }, { 10; 10 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 10 }, loop { break 10 }, 'q: { break 'q 10 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 10 } else { 10 }, match k { _ => 10 }, (|| 10)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(10), [10][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [10, 10])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(10) } else { frag!(p!({ 10 })) }), 10)) }
    } }
    h_22_l130(b) { let w = "99"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(99)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(99)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 99, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 99, "b", 99)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 99, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((99), ((99)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 99 }, ({ (99) }), a = { 99 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(99, x, 99)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(99), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(99 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(99 = bool!(k), (99) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(99)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 99 }, x)) }
        13 => { lit(w); end(b, 99) }
        14 => { let v = 99; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 99; let c = b!(v); let v = 99; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(99)) }
        17 => { w!["<p></p>"]; end(b, p!({ 99; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 99; }, { { 99; } }, { 99; x }, { 99; 99 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 99 }, loop { break 99 }, 'q: { break 'q 99 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 99 } else { 99 }, match k { _ => 99 }, (|| 99)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(99), [99][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [99, 99])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(99) } else { frag!(p!({ 99 })) }), 99)) }
    } }
    h_22_l131(b) { let w = "100"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(100)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(100)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 100, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 100, "b", 100)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 100, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((100), ((100)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 100 }, ({ (100) }), a = { 100 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(100, x, 100)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(100), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(100 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(100 = bool!(k), (100) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(100)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 100 }, x)) }
        13 => { lit(w); end(b, 100) }
        14 => { let v = 100; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 100; let c = b!(v); let v = 100; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(100)) }
        17 => { w!["<p></p>"]; end(b, p!({ 100; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 100; }, { { 100; } }, { 100; x }, { 100; 100 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 100 }, loop { break 100 }, 'q: { break 'q 100 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 100 } else { 100 }, match k { _ => 100 }, (|| 100)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(100), [100][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [100, 100])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(100) } else { frag!(p!({ 100 })) }), 100)) }
    } }
    h_22_l132(b) { let w = "999"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(999)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(999)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 999, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 999, "b", 999)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 999, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((999), ((999)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 999 }, ({ (999) }), a = { 999 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(999, x, 999)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(999), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(999 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(999 = bool!(k), (999) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(999)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 999 }, x)) }
        13 => { lit(w); end(b, 999) }
        14 => { let v = 999; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 999; let c = b!(v); let v = 999; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(999)) }
        17 => { w!["<p></p>"]; end(b, p!({ 999; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 999; }, { { 999; } }, { 999; x }, { 999; 999 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 999 }, loop { break 999 }, 'q: { break 'q 999 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 999 } else { 999 }, match k { _ => 999 }, (|| 999)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(999), [999][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [999, 999])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(999) } else { frag!(p!({ 999 })) }), 999)) }
    } }
    h_22_l133(b) { let w = "1000"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1000)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1000)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1000, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1000, "b", 1000)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1000, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1000), ((1000)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1000 }, ({ (1000) }), a = { 1000 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1000, x, 1000)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1000), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1000 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1000 = bool!(k), (1000) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1000)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1000 }, x)) }
        13 => { lit(w); end(b, 1000) }
        14 => { let v = 1000; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1000; let c = b!(v); let v = 1000; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1000)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1000; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1000; }, { { 1000; } }, { 1000; x }, { 1000; 1000 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1000 }, loop { break 1000 }, 'q: { break 'q 1000 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1000 } else { 1000 }, match k { _ => 1000 }, (|| 1000)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1000), [1000][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1000, 1000])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1000) } else { frag!(p!({ 1000 })) }), 1000)) }
    } }
    h_22_l134(b) { let w = "12345"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(12345)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(12345)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 12345, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 12345, "b", 12345)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 12345, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((12345), ((12345)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 12345 }, ({ (12345) }), a = { 12345 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(12345, x, 12345)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(12345), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(12345 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(12345 = bool!(k), (12345) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(12345)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 12345 }, x)) }
        13 => { lit(w); end(b, 12345) }
        14 => { let v = 12345; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 12345; let c = b!(v); let v = 12345; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(12345)) }
        17 => { w!["<p></p>"]; end(b, p!({ 12345; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 12345; }, { { 12345; } }, { 12345; x }, { 12345; 12345 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 12345 }, loop { break 12345 }, 'q: { break 'q 12345 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 12345 } else { 12345 }, match k { _ => 12345 }, (|| 12345)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(12345), [12345][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [12345, 12345])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(12345) } else { frag!(p!({ 12345 })) }), 12345)) }
    } }
    h_22_l135(b) { let w = "2147483647"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(2147483647)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(2147483647)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 2147483647, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 2147483647, "b", 2147483647)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 2147483647, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((2147483647), ((2147483647)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 2147483647 }, ({ (2147483647) }), a = { 2147483647 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(2147483647, x, 2147483647)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(2147483647), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(2147483647 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(2147483647 = bool!(k), (2147483647) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(2147483647)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 2147483647 }, x)) }
        13 => { lit(w); end(b, 2147483647) }
        14 => { let v = 2147483647; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 2147483647; let c = b!(v); let v = 2147483647; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(2147483647)) }
        17 => { w!["<p></p>"]; end(b, p!({ 2147483647; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 2147483647; }, { { 2147483647; } }, { 2147483647; x }, { 2147483647; 2147483647 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 2147483647 }, loop { break 2147483647 }, 'q: { break 'q 2147483647 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 2147483647 } else { 2147483647 }, match k { _ => 2147483647 }, (|| 2147483647)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(2147483647), [2147483647][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [2147483647, 2147483647])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(2147483647) } else { frag!(p!({ 2147483647 })) }), 2147483647)) }
    } }
    h_22_l136(b) { let w = "4294967296"; let x = t(1); let k = bool_(); match choose(13) {
        0 => { lit(w); end(b, frag!(4294967296)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(4294967296)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 4294967296, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 4294967296, "b", 4294967296)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 4294967296, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((4294967296), ((4294967296)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 4294967296 }, ({ (4294967296) }), a = { 4294967296 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(4294967296, x, 4294967296)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(4294967296), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(4294967296 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(4294967296 = bool!(k), (4294967296) = bool!(true))) }
        11 => { w!["<p></p>"]; end(b, p!({ 4294967296; })) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(4294967296) } else { frag!(p!({ 4294967296 })) }), 4294967296)) }
    } }
    h_22_l137(b) { let w = "340282366920938463463374607431768211455"; let x = t(1); let k = bool_(); match choose(13) {
        0 => { lit(w); end(b, frag!(340282366920938463463374607431768211455)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(340282366920938463463374607431768211455)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 340282366920938463463374607431768211455, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 340282366920938463463374607431768211455, "b", 340282366920938463463374607431768211455)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 340282366920938463463374607431768211455, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((340282366920938463463374607431768211455), ((340282366920938463463374607431768211455)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 340282366920938463463374607431768211455 }, ({ (340282366920938463463374607431768211455) }), a = { 340282366920938463463374607431768211455 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(340282366920938463463374607431768211455, x, 340282366920938463463374607431768211455)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(340282366920938463463374607431768211455), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(340282366920938463463374607431768211455 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(340282366920938463463374607431768211455 = bool!(k), (340282366920938463463374607431768211455) = bool!(true))) }
        11 => { w!["<p></p>"]; end(b, p!({ 340282366920938463463374607431768211455; })) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(340282366920938463463374607431768211455) } else { frag!(p!({ 340282366920938463463374607431768211455 })) }), 340282366920938463463374607431768211455)) }
    } }
    h_22_l138(b) { let w = "18446744073709551616"; let x = t(1); let k = bool_(); match choose(13) {
        0 => { lit(w); end(b, frag!(18446744073709551616)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(18446744073709551616)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 18446744073709551616, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 18446744073709551616, "b", 18446744073709551616)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 18446744073709551616, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((18446744073709551616), ((18446744073709551616)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 18446744073709551616 }, ({ (18446744073709551616) }), a = { 18446744073709551616 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(18446744073709551616, x, 18446744073709551616)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(18446744073709551616), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(18446744073709551616 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(18446744073709551616 = bool!(k), (18446744073709551616) = bool!(true))) }
        11 => { w!["<p></p>"]; end(b, p!({ 18446744073709551616; })) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(18446744073709551616) } else { frag!(p!({ 18446744073709551616 })) }), 18446744073709551616)) }
    } }
    h_22_l139(b) { let w = "255"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0xff)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0xff)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0xff, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0xff, "b", 0xff)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0xff, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0xff), ((0xff)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0xff }, ({ (0xff) }), a = { 0xff })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0xff, x, 0xff)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0xff), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0xff = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0xff = bool!(k), (0xff) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0xff)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0xff }, x)) }
        13 => { lit(w); end(b, 0xff) }
        14 => { let v = 0xff; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0xff; let c = b!(v); let v = 0xff; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0xff)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0xff; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0xff; }, { { 0xff; } }, { 0xff; x }, { 0xff; 0xff })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0xff }, loop { break 0xff }, 'q: { break 'q 0xff })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0xff } else { 0xff }, match k { _ => 0xff }, (|| 0xff)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0xff), [0xff][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0xff, 0xff])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0xff) } else { frag!(p!({ 0xff })) }), 0xff)) }
    } }
    h_22_l140(b) { let w = "15"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0o17)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0o17)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0o17, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0o17, "b", 0o17)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0o17, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0o17), ((0o17)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0o17 }, ({ (0o17) }), a = { 0o17 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0o17, x, 0o17)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0o17), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0o17 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0o17 = bool!(k), (0o17) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0o17)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0o17 }, x)) }
        13 => { lit(w); end(b, 0o17) }
        14 => { let v = 0o17; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0o17; let c = b!(v); let v = 0o17; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0o17)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0o17; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0o17; }, { { 0o17; } }, { 0o17; x }, { 0o17; 0o17 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0o17 }, loop { break 0o17 }, 'q: { break 'q 0o17 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0o17 } else { 0o17 }, match k { _ => 0o17 }, (|| 0o17)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0o17), [0o17][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0o17, 0o17])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0o17) } else { frag!(p!({ 0o17 })) }), 0o17)) }
    } }
    h_22_l141(b) { let w = "10"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0b1010)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0b1010)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0b1010, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0b1010, "b", 0b1010)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0b1010, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0b1010), ((0b1010)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0b1010 }, ({ (0b1010) }), a = { 0b1010 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0b1010, x, 0b1010)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0b1010), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0b1010 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0b1010 = bool!(k), (0b1010) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0b1010)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0b1010 }, x)) }
        13 => { lit(w); end(b, 0b1010) }
        14 => { let v = 0b1010; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0b1010; let c = b!(v); let v = 0b1010; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0b1010)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0b1010; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0b1010; }, { { 0b1010; } }, { 0b1010; x }, { 0b1010; 0b1010 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0b1010 }, loop { break 0b1010 }, 'q: { break 'q 0b1010 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0b1010 } else { 0b1010 }, match k { _ => 0b1010 }, (|| 0b1010)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0b1010), [0b1010][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0b1010, 0b1010])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0b1010) } else { frag!(p!({ 0b1010 })) }), 0b1010)) }
    } }
    h_22_l142(b) { let w = "1000000"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1_000_000)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1_000_000)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1_000_000, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1_000_000, "b", 1_000_000)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1_000_000, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1_000_000), ((1_000_000)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1_000_000 }, ({ (1_000_000) }), a = { 1_000_000 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1_000_000, x, 1_000_000)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1_000_000), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1_000_000 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1_000_000 = bool!(k), (1_000_000) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1_000_000)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1_000_000 }, x)) }
        13 => { lit(w); end(b, 1_000_000) }
        14 => { let v = 1_000_000; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1_000_000; let c = b!(v); let v = 1_000_000; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1_000_000)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1_000_000; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1_000_000; }, { { 1_000_000; } }, { 1_000_000; x }, { 1_000_000; 1_000_000 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1_000_000 }, loop { break 1_000_000 }, 'q: { break 'q 1_000_000 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1_000_000 } else { 1_000_000 }, match k { _ => 1_000_000 }, (|| 1_000_000)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1_000_000), [1_000_000][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1_000_000, 1_000_000])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1_000_000) } else { frag!(p!({ 1_000_000 })) }), 1_000_000)) }
    } }
    h_22_l143(b) { let w = "3735928559"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0xDEAD_BEEFu32)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0xDEAD_BEEFu32)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0xDEAD_BEEFu32, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0xDEAD_BEEFu32, "b", 0xDEAD_BEEFu32)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0xDEAD_BEEFu32, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0xDEAD_BEEFu32), ((0xDEAD_BEEFu32)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0xDEAD_BEEFu32 }, ({ (0xDEAD_BEEFu32) }), a = { 0xDEAD_BEEFu32 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0xDEAD_BEEFu32, x, 0xDEAD_BEEFu32)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0xDEAD_BEEFu32), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0xDEAD_BEEFu32 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0xDEAD_BEEFu32 = bool!(k), (0xDEAD_BEEFu32) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0xDEAD_BEEFu32)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0xDEAD_BEEFu32 }, x)) }
        13 => { lit(w); end(b, 0xDEAD_BEEFu32) }
        14 => { let v = 0xDEAD_BEEFu32; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0xDEAD_BEEFu32; let c = b!(v); let v = 0xDEAD_BEEFu32; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0xDEAD_BEEFu32)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0xDEAD_BEEFu32; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0xDEAD_BEEFu32; }, { { 0xDEAD_BEEFu32; } }, { 0xDEAD_BEEFu32; x }, { 0xDEAD_BEEFu32; 0xDEAD_BEEFu32 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0xDEAD_BEEFu32 }, loop { break 0xDEAD_BEEFu32 }, 'q: { break 'q 0xDEAD_BEEFu32 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0xDEAD_BEEFu32 } else { 0xDEAD_BEEFu32 }, match k { _ => 0xDEAD_BEEFu32 }, (|| 0xDEAD_BEEFu32)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0xDEAD_BEEFu32), [0xDEAD_BEEFu32][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0xDEAD_BEEFu32, 0xDEAD_BEEFu32])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0xDEAD_BEEFu32) } else { frag!(p!({ 0xDEAD_BEEFu32 })) }), 0xDEAD_BEEFu32)) }
    } }
    h_22_l144(b) { let w = "12"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(00012)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(00012)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 00012, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 00012, "b", 00012)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 00012, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((00012), ((00012)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 00012 }, ({ (00012) }), a = { 00012 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(00012, x, 00012)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(00012), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(00012 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(00012 = bool!(k), (00012) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(00012)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 00012 }, x)) }
        13 => { lit(w); end(b, 00012) }
        14 => { let v = 00012; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 00012; let c = b!(v); let v = 00012; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(00012)) }
        17 => { w!["<p></p>"]; end(b, p!({ 00012; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 00012; }, { { 00012; } }, { 00012; x }, { 00012; 00012 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 00012 }, loop { break 00012 }, 'q: { break 'q 00012 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 00012 } else { 00012 }, match k { _ => 00012 }, (|| 00012)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(00012), [00012][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [00012, 00012])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(00012) } else { frag!(p!({ 00012 })) }), 00012)) }
    } }
    h_22_l145(b) { let w = "240"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0b1111_0000u8)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0b1111_0000u8)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0b1111_0000u8, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0b1111_0000u8, "b", 0b1111_0000u8)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0b1111_0000u8, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0b1111_0000u8), ((0b1111_0000u8)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0b1111_0000u8 }, ({ (0b1111_0000u8) }), a = { 0b1111_0000u8 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0b1111_0000u8, x, 0b1111_0000u8)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0b1111_0000u8), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0b1111_0000u8 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0b1111_0000u8 = bool!(k), (0b1111_0000u8) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0b1111_0000u8)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0b1111_0000u8 }, x)) }
        13 => { lit(w); end(b, 0b1111_0000u8) }
        14 => { let v = 0b1111_0000u8; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0b1111_0000u8; let c = b!(v); let v = 0b1111_0000u8; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0b1111_0000u8)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0b1111_0000u8; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0b1111_0000u8; }, { { 0b1111_0000u8; } }, { 0b1111_0000u8; x }, { 0b1111_0000u8; 0b1111_0000u8 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0b1111_0000u8 }, loop { break 0b1111_0000u8 }, 'q: { break 'q 0b1111_0000u8 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0b1111_0000u8 } else { 0b1111_0000u8 }, match k { _ => 0b1111_0000u8 }, (|| 0b1111_0000u8)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0b1111_0000u8), [0b1111_0000u8][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0b1111_0000u8, 0b1111_0000u8])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0b1111_0000u8) } else { frag!(p!({ 0b1111_0000u8 })) }), 0b1111_0000u8)) }
    } }
    h_22_l146(b) { let w = "340282366920938463463374607431768211455"; let x = t(1); let k = bool_(); match choose(13) {
        0 => { lit(w); end(b, frag!(0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff, "b", 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff), ((0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff }, ({ (0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) }), a = { 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff, x, 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff = bool!(k), (0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) = bool!(true))) }
        11 => { w!["<p></p>"]; end(b, p!({ 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff; })) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) } else { frag!(p!({ 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff })) }), 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff)) }
    } }
    h_22_l147(b) { let w = "255"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(255u8)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(255u8)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 255u8, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 255u8, "b", 255u8)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 255u8, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((255u8), ((255u8)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 255u8 }, ({ (255u8) }), a = { 255u8 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(255u8, x, 255u8)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(255u8), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(255u8 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(255u8 = bool!(k), (255u8) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(255u8)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 255u8 }, x)) }
        13 => { lit(w); end(b, 255u8) }
        14 => { let v = 255u8; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 255u8; let c = b!(v); let v = 255u8; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(255u8)) }
        17 => { w!["<p></p>"]; end(b, p!({ 255u8; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 255u8; }, { { 255u8; } }, { 255u8; x }, { 255u8; 255u8 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 255u8 }, loop { break 255u8 }, 'q: { break 'q 255u8 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 255u8 } else { 255u8 }, match k { _ => 255u8 }, (|| 255u8)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(255u8), [255u8][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [255u8, 255u8])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(255u8) } else { frag!(p!({ 255u8 })) }), 255u8)) }
    } }
    h_22_l148(b) { let w = "127"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(127i8)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(127i8)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 127i8, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 127i8, "b", 127i8)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 127i8, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((127i8), ((127i8)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 127i8 }, ({ (127i8) }), a = { 127i8 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(127i8, x, 127i8)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(127i8), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(127i8 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(127i8 = bool!(k), (127i8) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(127i8)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 127i8 }, x)) }
        13 => { lit(w); end(b, 127i8) }
        14 => { let v = 127i8; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 127i8; let c = b!(v); let v = 127i8; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(127i8)) }
        17 => { w!["<p></p>"]; end(b, p!({ 127i8; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 127i8; }, { { 127i8; } }, { 127i8; x }, { 127i8; 127i8 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 127i8 }, loop { break 127i8 }, 'q: { break 'q 127i8 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 127i8 } else { 127i8 }, match k { _ => 127i8 }, (|| 127i8)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(127i8), [127i8][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [127i8, 127i8])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(127i8) } else { frag!(p!({ 127i8 })) }), 127i8)) }
    } }
    h_22_l149(b) { let w = "-128"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(-128i8)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(-128i8)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, -128i8, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", -128i8, "b", -128i8)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = -128i8, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((-128i8), ((-128i8)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ -128i8 }, ({ (-128i8) }), a = { -128i8 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(-128i8, x, -128i8)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(-128i8), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(-128i8 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(-128i8 = bool!(k), (-128i8) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(-128i8)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; -128i8 }, x)) }
        13 => { lit(w); end(b, -128i8) }
        14 => { let v = -128i8; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = -128i8; let c = b!(v); let v = -128i8; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(-128i8)) }
        17 => { w!["<p></p>"]; end(b, p!({ -128i8; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { -128i8; }, { { -128i8; } }, { -128i8; x }, { -128i8; -128i8 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { -128i8 }, loop { break -128i8 }, 'q: { break 'q -128i8 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { -128i8 } else { -128i8 }, match k { _ => -128i8 }, (|| -128i8)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(-128i8), [-128i8][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [-128i8, -128i8])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(-128i8) } else { frag!(p!({ -128i8 })) }), -128i8)) }
    } }
    h_22_l150(b) { let w = "0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0u8)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0u8)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0u8, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0u8, "b", 0u8)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0u8, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0u8), ((0u8)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0u8 }, ({ (0u8) }), a = { 0u8 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0u8, x, 0u8)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0u8), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0u8 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0u8 = bool!(k), (0u8) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0u8)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0u8 }, x)) }
        13 => { lit(w); end(b, 0u8) }
        14 => { let v = 0u8; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0u8; let c = b!(v); let v = 0u8; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0u8)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0u8; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0u8; }, { { 0u8; } }, { 0u8; x }, { 0u8; 0u8 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0u8 }, loop { break 0u8 }, 'q: { break 'q 0u8 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0u8 } else { 0u8 }, match k { _ => 0u8 }, (|| 0u8)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0u8), [0u8][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0u8, 0u8])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0u8) } else { frag!(p!({ 0u8 })) }), 0u8)) }
    } }
    h_22_l151(b) { let w = "7"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(7_i8)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(7_i8)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 7_i8, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 7_i8, "b", 7_i8)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 7_i8, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((7_i8), ((7_i8)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 7_i8 }, ({ (7_i8) }), a = { 7_i8 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(7_i8, x, 7_i8)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(7_i8), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(7_i8 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(7_i8 = bool!(k), (7_i8) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(7_i8)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 7_i8 }, x)) }
        13 => { lit(w); end(b, 7_i8) }
        14 => { let v = 7_i8; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 7_i8; let c = b!(v); let v = 7_i8; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(7_i8)) }
        17 => { w!["<p></p>"]; end(b, p!({ 7_i8; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 7_i8; }, { { 7_i8; } }, { 7_i8; x }, { 7_i8; 7_i8 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 7_i8 }, loop { break 7_i8 }, 'q: { break 'q 7_i8 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 7_i8 } else { 7_i8 }, match k { _ => 7_i8 }, (|| 7_i8)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(7_i8), [7_i8][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [7_i8, 7_i8])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(7_i8) } else { frag!(p!({ 7_i8 })) }), 7_i8)) }
    } }
    h_22_l152(b) { let w = "65535"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(65535u16)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(65535u16)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 65535u16, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 65535u16, "b", 65535u16)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 65535u16, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((65535u16), ((65535u16)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 65535u16 }, ({ (65535u16) }), a = { 65535u16 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(65535u16, x, 65535u16)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(65535u16), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(65535u16 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(65535u16 = bool!(k), (65535u16) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(65535u16)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 65535u16 }, x)) }
        13 => { lit(w); end(b, 65535u16) }
        14 => { let v = 65535u16; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 65535u16; let c = b!(v); let v = 65535u16; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(65535u16)) }
        17 => { w!["<p></p>"]; end(b, p!({ 65535u16; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 65535u16; }, { { 65535u16; } }, { 65535u16; x }, { 65535u16; 65535u16 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 65535u16 }, loop { break 65535u16 }, 'q: { break 'q 65535u16 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 65535u16 } else { 65535u16 }, match k { _ => 65535u16 }, (|| 65535u16)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(65535u16), [65535u16][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [65535u16, 65535u16])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(65535u16) } else { frag!(p!({ 65535u16 })) }), 65535u16)) }
    } }
    h_22_l153(b) { let w = "32767"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(32767i16)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(32767i16)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 32767i16, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 32767i16, "b", 32767i16)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 32767i16, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((32767i16), ((32767i16)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 32767i16 }, ({ (32767i16) }), a = { 32767i16 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(32767i16, x, 32767i16)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(32767i16), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(32767i16 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(32767i16 = bool!(k), (32767i16) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(32767i16)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 32767i16 }, x)) }
        13 => { lit(w); end(b, 32767i16) }
        14 => { let v = 32767i16; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 32767i16; let c = b!(v); let v = 32767i16; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(32767i16)) }
        17 => { w!["<p></p>"]; end(b, p!({ 32767i16; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 32767i16; }, { { 32767i16; } }, { 32767i16; x }, { 32767i16; 32767i16 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 32767i16 }, loop { break 32767i16 }, 'q: { break 'q 32767i16 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 32767i16 } else { 32767i16 }, match k { _ => 32767i16 }, (|| 32767i16)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(32767i16), [32767i16][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [32767i16, 32767i16])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(32767i16) } else { frag!(p!({ 32767i16 })) }), 32767i16)) }
    } }
    h_22_l154(b) { let w = "-32768"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(-32768i16)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(-32768i16)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, -32768i16, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", -32768i16, "b", -32768i16)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = -32768i16, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((-32768i16), ((-32768i16)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ -32768i16 }, ({ (-32768i16) }), a = { -32768i16 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(-32768i16, x, -32768i16)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(-32768i16), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(-32768i16 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(-32768i16 = bool!(k), (-32768i16) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(-32768i16)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; -32768i16 }, x)) }
        13 => { lit(w); end(b, -32768i16) }
        14 => { let v = -32768i16; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = -32768i16; let c = b!(v); let v = -32768i16; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(-32768i16)) }
        17 => { w!["<p></p>"]; end(b, p!({ -32768i16; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { -32768i16; }, { { -32768i16; } }, { -32768i16; x }, { -32768i16; -32768i16 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { -32768i16 }, loop { break -32768i16 }, 'q: { break 'q -32768i16 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { -32768i16 } else { -32768i16 }, match k { _ => -32768i16 }, (|| -32768i16)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(-32768i16), [-32768i16][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [-32768i16, -32768i16])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(-32768i16) } else { frag!(p!({ -32768i16 })) }), -32768i16)) }
    } }
    h_22_l155(b) { let w = "0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0u16)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0u16)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0u16, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0u16, "b", 0u16)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0u16, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0u16), ((0u16)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0u16 }, ({ (0u16) }), a = { 0u16 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0u16, x, 0u16)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0u16), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0u16 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0u16 = bool!(k), (0u16) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0u16)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0u16 }, x)) }
        13 => { lit(w); end(b, 0u16) }
        14 => { let v = 0u16; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0u16; let c = b!(v); let v = 0u16; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0u16)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0u16; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0u16; }, { { 0u16; } }, { 0u16; x }, { 0u16; 0u16 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0u16 }, loop { break 0u16 }, 'q: { break 'q 0u16 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0u16 } else { 0u16 }, match k { _ => 0u16 }, (|| 0u16)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0u16), [0u16][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0u16, 0u16])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0u16) } else { frag!(p!({ 0u16 })) }), 0u16)) }
    } }
    h_22_l156(b) { let w = "7"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(7_i16)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(7_i16)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 7_i16, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 7_i16, "b", 7_i16)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 7_i16, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((7_i16), ((7_i16)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 7_i16 }, ({ (7_i16) }), a = { 7_i16 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(7_i16, x, 7_i16)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(7_i16), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(7_i16 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(7_i16 = bool!(k), (7_i16) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(7_i16)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 7_i16 }, x)) }
        13 => { lit(w); end(b, 7_i16) }
        14 => { let v = 7_i16; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 7_i16; let c = b!(v); let v = 7_i16; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(7_i16)) }
        17 => { w!["<p></p>"]; end(b, p!({ 7_i16; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 7_i16; }, { { 7_i16; } }, { 7_i16; x }, { 7_i16; 7_i16 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 7_i16 }, loop { break 7_i16 }, 'q: { break 'q 7_i16 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 7_i16 } else { 7_i16 }, match k { _ => 7_i16 }, (|| 7_i16)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(7_i16), [7_i16][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [7_i16, 7_i16])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(7_i16) } else { frag!(p!({ 7_i16 })) }), 7_i16)) }
    } }
    h_22_l157(b) { let w = "4294967295"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(4294967295u32)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(4294967295u32)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 4294967295u32, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 4294967295u32, "b", 4294967295u32)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 4294967295u32, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((4294967295u32), ((4294967295u32)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 4294967295u32 }, ({ (4294967295u32) }), a = { 4294967295u32 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(4294967295u32, x, 4294967295u32)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(4294967295u32), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(4294967295u32 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(4294967295u32 = bool!(k), (4294967295u32) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(4294967295u32)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 4294967295u32 }, x)) }
        13 => { lit(w); end(b, 4294967295u32) }
        14 => { let v = 4294967295u32; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 4294967295u32; let c = b!(v); let v = 4294967295u32; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(4294967295u32)) }
        17 => { w!["<p></p>"]; end(b, p!({ 4294967295u32; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 4294967295u32; }, { { 4294967295u32; } }, { 4294967295u32; x }, { 4294967295u32; 4294967295u32 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 4294967295u32 }, loop { break 4294967295u32 }, 'q: { break 'q 4294967295u32 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 4294967295u32 } else { 4294967295u32 }, match k { _ => 4294967295u32 }, (|| 4294967295u32)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(4294967295u32), [4294967295u32][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [4294967295u32, 4294967295u32])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(4294967295u32) } else { frag!(p!({ 4294967295u32 })) }), 4294967295u32)) }
    } }
    h_22_l158(b) { let w = "2147483647"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(2147483647i32)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(2147483647i32)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 2147483647i32, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 2147483647i32, "b", 2147483647i32)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 2147483647i32, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((2147483647i32), ((2147483647i32)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 2147483647i32 }, ({ (2147483647i32) }), a = { 2147483647i32 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(2147483647i32, x, 2147483647i32)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(2147483647i32), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(2147483647i32 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(2147483647i32 = bool!(k), (2147483647i32) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(2147483647i32)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 2147483647i32 }, x)) }
        13 => { lit(w); end(b, 2147483647i32) }
        14 => { let v = 2147483647i32; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 2147483647i32; let c = b!(v); let v = 2147483647i32; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(2147483647i32)) }
        17 => { w!["<p></p>"]; end(b, p!({ 2147483647i32; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 2147483647i32; }, { { 2147483647i32; } }, { 2147483647i32; x }, { 2147483647i32; 2147483647i32 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 2147483647i32 }, loop { break 2147483647i32 }, 'q: { break 'q 2147483647i32 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 2147483647i32 } else { 2147483647i32 }, match k { _ => 2147483647i32 }, (|| 2147483647i32)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(2147483647i32), [2147483647i32][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [2147483647i32, 2147483647i32])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(2147483647i32) } else { frag!(p!({ 2147483647i32 })) }), 2147483647i32)) }
    } }
    h_22_l159(b) { let w = "-2147483648"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(-2147483648i32)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(-2147483648i32)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, -2147483648i32, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", -2147483648i32, "b", -2147483648i32)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = -2147483648i32, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((-2147483648i32), ((-2147483648i32)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ -2147483648i32 }, ({ (-2147483648i32) }), a = { -2147483648i32 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(-2147483648i32, x, -2147483648i32)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(-2147483648i32), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(-2147483648i32 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(-2147483648i32 = bool!(k), (-2147483648i32) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(-2147483648i32)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; -2147483648i32 }, x)) }
        13 => { lit(w); end(b, -2147483648i32) }
        14 => { let v = -2147483648i32; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = -2147483648i32; let c = b!(v); let v = -2147483648i32; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(-2147483648i32)) }
        17 => { w!["<p></p>"]; end(b, p!({ -2147483648i32; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { -2147483648i32; }, { { -2147483648i32; } }, { -2147483648i32; x }, { -2147483648i32; -2147483648i32 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { -2147483648i32 }, loop { break -2147483648i32 }, 'q: { break 'q -2147483648i32 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { -2147483648i32 } else { -2147483648i32 }, match k { _ => -2147483648i32 }, (|| -2147483648i32)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(-2147483648i32), [-2147483648i32][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [-2147483648i32, -2147483648i32])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(-2147483648i32) } else { frag!(p!({ -2147483648i32 })) }), -2147483648i32)) }
    } }
    h_22_l160(b) { let w = "0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0u32)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0u32)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0u32, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0u32, "b", 0u32)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0u32, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0u32), ((0u32)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0u32 }, ({ (0u32) }), a = { 0u32 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0u32, x, 0u32)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0u32), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0u32 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0u32 = bool!(k), (0u32) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0u32)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0u32 }, x)) }
        13 => { lit(w); end(b, 0u32) }
        14 => { let v = 0u32; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0u32; let c = b!(v); let v = 0u32; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0u32)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0u32; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0u32; }, { { 0u32; } }, { 0u32; x }, { 0u32; 0u32 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0u32 }, loop { break 0u32 }, 'q: { break 'q 0u32 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0u32 } else { 0u32 }, match k { _ => 0u32 }, (|| 0u32)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0u32), [0u32][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0u32, 0u32])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0u32) } else { frag!(p!({ 0u32 })) }), 0u32)) }
    } }
    h_22_l161(b) { let w = "7"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(7_i32)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(7_i32)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 7_i32, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 7_i32, "b", 7_i32)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 7_i32, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((7_i32), ((7_i32)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 7_i32 }, ({ (7_i32) }), a = { 7_i32 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(7_i32, x, 7_i32)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(7_i32), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(7_i32 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(7_i32 = bool!(k), (7_i32) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(7_i32)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 7_i32 }, x)) }
        13 => { lit(w); end(b, 7_i32) }
        14 => { let v = 7_i32; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 7_i32; let c = b!(v); let v = 7_i32; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(7_i32)) }
        17 => { w!["<p></p>"]; end(b, p!({ 7_i32; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 7_i32; }, { { 7_i32; } }, { 7_i32; x }, { 7_i32; 7_i32 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 7_i32 }, loop { break 7_i32 }, 'q: { break 'q 7_i32 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 7_i32 } else { 7_i32 }, match k { _ => 7_i32 }, (|| 7_i32)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(7_i32), [7_i32][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [7_i32, 7_i32])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(7_i32) } else { frag!(p!({ 7_i32 })) }), 7_i32)) }
    } }
    h_22_l162(b) { let w = "18446744073709551615"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(18446744073709551615u64)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(18446744073709551615u64)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 18446744073709551615u64, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 18446744073709551615u64, "b", 18446744073709551615u64)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 18446744073709551615u64, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((18446744073709551615u64), ((18446744073709551615u64)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 18446744073709551615u64 }, ({ (18446744073709551615u64) }), a = { 18446744073709551615u64 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(18446744073709551615u64, x, 18446744073709551615u64)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(18446744073709551615u64), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(18446744073709551615u64 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(18446744073709551615u64 = bool!(k), (18446744073709551615u64) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(18446744073709551615u64)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 18446744073709551615u64 }, x)) }
        13 => { lit(w); end(b, 18446744073709551615u64) }
        14 => { let v = 18446744073709551615u64; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 18446744073709551615u64; let c = b!(v); let v = 18446744073709551615u64; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(18446744073709551615u64)) }
        17 => { w!["<p></p>"]; end(b, p!({ 18446744073709551615u64; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 18446744073709551615u64; }, { { 18446744073709551615u64; } }, { 18446744073709551615u64; x }, { 18446744073709551615u64; 18446744073709551615u64 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 18446744073709551615u64 }, loop { break 18446744073709551615u64 }, 'q: { break 'q 18446744073709551615u64 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 18446744073709551615u64 } else { 18446744073709551615u64 }, match k { _ => 18446744073709551615u64 }, (|| 18446744073709551615u64)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(18446744073709551615u64), [18446744073709551615u64][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [18446744073709551615u64, 18446744073709551615u64])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(18446744073709551615u64) } else { frag!(p!({ 18446744073709551615u64 })) }), 18446744073709551615u64)) }
    } }
    h_22_l163(b) { let w = "9223372036854775807"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(9223372036854775807i64)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(9223372036854775807i64)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 9223372036854775807i64, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 9223372036854775807i64, "b", 9223372036854775807i64)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 9223372036854775807i64, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((9223372036854775807i64), ((9223372036854775807i64)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 9223372036854775807i64 }, ({ (9223372036854775807i64) }), a = { 9223372036854775807i64 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(9223372036854775807i64, x, 9223372036854775807i64)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(9223372036854775807i64), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(9223372036854775807i64 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(9223372036854775807i64 = bool!(k), (9223372036854775807i64) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(9223372036854775807i64)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 9223372036854775807i64 }, x)) }
        13 => { lit(w); end(b, 9223372036854775807i64) }
        14 => { let v = 9223372036854775807i64; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 9223372036854775807i64; let c = b!(v); let v = 9223372036854775807i64; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(9223372036854775807i64)) }
        17 => { w!["<p></p>"]; end(b, p!({ 9223372036854775807i64; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 9223372036854775807i64; }, { { 9223372036854775807i64; } }, { 9223372036854775807i64; x }, { 9223372036854775807i64; 9223372036854775807i64 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 9223372036854775807i64 }, loop { break 9223372036854775807i64 }, 'q: { break 'q 9223372036854775807i64 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 9223372036854775807i64 } else { 9223372036854775807i64 }, match k { _ => 9223372036854775807i64 }, (|| 9223372036854775807i64)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(9223372036854775807i64), [9223372036854775807i64][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [9223372036854775807i64, 9223372036854775807i64])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(9223372036854775807i64) } else { frag!(p!({ 9223372036854775807i64 })) }), 9223372036854775807i64)) }
    } }
    h_22_l164(b) { let w = "-9223372036854775808"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(-9223372036854775808i64)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(-9223372036854775808i64)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, -9223372036854775808i64, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", -9223372036854775808i64, "b", -9223372036854775808i64)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = -9223372036854775808i64, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((-9223372036854775808i64), ((-9223372036854775808i64)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ -9223372036854775808i64 }, ({ (-9223372036854775808i64) }), a = { -9223372036854775808i64 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(-9223372036854775808i64, x, -9223372036854775808i64)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(-9223372036854775808i64), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(-9223372036854775808i64 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(-9223372036854775808i64 = bool!(k), (-9223372036854775808i64) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(-9223372036854775808i64)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; -9223372036854775808i64 }, x)) }
        13 => { lit(w); end(b, -9223372036854775808i64) }
        14 => { let v = -9223372036854775808i64; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = -9223372036854775808i64; let c = b!(v); let v = -9223372036854775808i64; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(-9223372036854775808i64)) }
        17 => { w!["<p></p>"]; end(b, p!({ -9223372036854775808i64; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { -9223372036854775808i64; }, { { -9223372036854775808i64; } }, { -9223372036854775808i64; x }, { -9223372036854775808i64; -9223372036854775808i64 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { -9223372036854775808i64 }, loop { break -9223372036854775808i64 }, 'q: { break 'q -9223372036854775808i64 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { -9223372036854775808i64 } else { -9223372036854775808i64 }, match k { _ => -9223372036854775808i64 }, (|| -9223372036854775808i64)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(-9223372036854775808i64), [-9223372036854775808i64][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [-9223372036854775808i64, -9223372036854775808i64])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(-9223372036854775808i64) } else { frag!(p!({ -9223372036854775808i64 })) }), -9223372036854775808i64)) }
    } }
    h_22_l165(b) { let w = "0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0u64)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0u64)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0u64, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0u64, "b", 0u64)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0u64, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0u64), ((0u64)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0u64 }, ({ (0u64) }), a = { 0u64 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0u64, x, 0u64)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0u64), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0u64 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0u64 = bool!(k), (0u64) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0u64)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0u64 }, x)) }
        13 => { lit(w); end(b, 0u64) }
        14 => { let v = 0u64; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0u64; let c = b!(v); let v = 0u64; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0u64)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0u64; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0u64; }, { { 0u64; } }, { 0u64; x }, { 0u64; 0u64 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0u64 }, loop { break 0u64 }, 'q: { break 'q 0u64 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0u64 } else { 0u64 }, match k { _ => 0u64 }, (|| 0u64)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0u64), [0u64][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0u64, 0u64])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0u64) } else { frag!(p!({ 0u64 })) }), 0u64)) }
    } }
    h_22_l166(b) { let w = "7"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(7_i64)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(7_i64)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 7_i64, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 7_i64, "b", 7_i64)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 7_i64, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((7_i64), ((7_i64)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 7_i64 }, ({ (7_i64) }), a = { 7_i64 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(7_i64, x, 7_i64)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(7_i64), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(7_i64 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(7_i64 = bool!(k), (7_i64) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(7_i64)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 7_i64 }, x)) }
        13 => { lit(w); end(b, 7_i64) }
        14 => { let v = 7_i64; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 7_i64; let c = b!(v); let v = 7_i64; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(7_i64)) }
        17 => { w!["<p></p>"]; end(b, p!({ 7_i64; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 7_i64; }, { { 7_i64; } }, { 7_i64; x }, { 7_i64; 7_i64 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 7_i64 }, loop { break 7_i64 }, 'q: { break 'q 7_i64 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 7_i64 } else { 7_i64 }, match k { _ => 7_i64 }, (|| 7_i64)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(7_i64), [7_i64][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [7_i64, 7_i64])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(7_i64) } else { frag!(p!({ 7_i64 })) }), 7_i64)) }
    } }
    h_22_l167(b) { let w = "340282366920938463463374607431768211455"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(340282366920938463463374607431768211455u128)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(340282366920938463463374607431768211455u128)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 340282366920938463463374607431768211455u128, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 340282366920938463463374607431768211455u128, "b", 340282366920938463463374607431768211455u128)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 340282366920938463463374607431768211455u128, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((340282366920938463463374607431768211455u128), ((340282366920938463463374607431768211455u128)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 340282366920938463463374607431768211455u128 }, ({ (340282366920938463463374607431768211455u128) }), a = { 340282366920938463463374607431768211455u128 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(340282366920938463463374607431768211455u128, x, 340282366920938463463374607431768211455u128)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(340282366920938463463374607431768211455u128), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(340282366920938463463374607431768211455u128 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(340282366920938463463374607431768211455u128 = bool!(k), (340282366920938463463374607431768211455u128) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(340282366920938463463374607431768211455u128)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 340282366920938463463374607431768211455u128 }, x)) }
        13 => { lit(w); end(b, 340282366920938463463374607431768211455u128) }
        14 => { let v = 340282366920938463463374607431768211455u128; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 340282366920938463463374607431768211455u128; let c = b!(v); let v = 340282366920938463463374607431768211455u128; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(340282366920938463463374607431768211455u128)) }
        17 => { w!["<p></p>"]; end(b, p!({ 340282366920938463463374607431768211455u128; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 340282366920938463463374607431768211455u128; }, { { 340282366920938463463374607431768211455u128; } }, { 340282366920938463463374607431768211455u128; x }, { 340282366920938463463374607431768211455u128; 340282366920938463463374607431768211455u128 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 340282366920938463463374607431768211455u128 }, loop { break 340282366920938463463374607431768211455u128 }, 'q: { break 'q 340282366920938463463374607431768211455u128 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 340282366920938463463374607431768211455u128 } else { 340282366920938463463374607431768211455u128 }, match k { _ => 340282366920938463463374607431768211455u128 }, (|| 340282366920938463463374607431768211455u128)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(340282366920938463463374607431768211455u128), [340282366920938463463374607431768211455u128][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [340282366920938463463374607431768211455u128, 340282366920938463463374607431768211455u128])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(340282366920938463463374607431768211455u128) } else { frag!(p!({ 340282366920938463463374607431768211455u128 })) }), 340282366920938463463374607431768211455u128)) }
    } }
    h_22_l168(b) { let w = "170141183460469231731687303715884105727"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(170141183460469231731687303715884105727i128)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(170141183460469231731687303715884105727i128)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 170141183460469231731687303715884105727i128, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 170141183460469231731687303715884105727i128, "b", 170141183460469231731687303715884105727i128)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 170141183460469231731687303715884105727i128, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((170141183460469231731687303715884105727i128), ((170141183460469231731687303715884105727i128)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 170141183460469231731687303715884105727i128 }, ({ (170141183460469231731687303715884105727i128) }), a = { 170141183460469231731687303715884105727i128 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(170141183460469231731687303715884105727i128, x, 170141183460469231731687303715884105727i128)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(170141183460469231731687303715884105727i128), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(170141183460469231731687303715884105727i128 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(170141183460469231731687303715884105727i128 = bool!(k), (170141183460469231731687303715884105727i128) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(170141183460469231731687303715884105727i128)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 170141183460469231731687303715884105727i128 }, x)) }
        13 => { lit(w); end(b, 170141183460469231731687303715884105727i128) }
        14 => { let v = 170141183460469231731687303715884105727i128; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 170141183460469231731687303715884105727i128; let c = b!(v); let v = 170141183460469231731687303715884105727i128; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(170141183460469231731687303715884105727i128)) }
        17 => { w!["<p></p>"]; end(b, p!({ 170141183460469231731687303715884105727i128; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 170141183460469231731687303715884105727i128; }, { { 170141183460469231731687303715884105727i128; } }, { 170141183460469231731687303715884105727i128; x }, { 170141183460469231731687303715884105727i128; 170141183460469231731687303715884105727i128 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 170141183460469231731687303715884105727i128 }, loop { break 170141183460469231731687303715884105727i128 }, 'q: { break 'q 170141183460469231731687303715884105727i128 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 170141183460469231731687303715884105727i128 } else { 170141183460469231731687303715884105727i128 }, match k { _ => 170141183460469231731687303715884105727i128 }, (|| 170141183460469231731687303715884105727i128)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(170141183460469231731687303715884105727i128), [170141183460469231731687303715884105727i128][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [170141183460469231731687303715884105727i128, 170141183460469231731687303715884105727i128])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(170141183460469231731687303715884105727i128) } else { frag!(p!({ 170141183460469231731687303715884105727i128 })) }), 170141183460469231731687303715884105727i128)) }
    } }
    h_22_l169(b) { let w = "-170141183460469231731687303715884105728"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(-170141183460469231731687303715884105728i128)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(-170141183460469231731687303715884105728i128)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, -170141183460469231731687303715884105728i128, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", -170141183460469231731687303715884105728i128, "b", -170141183460469231731687303715884105728i128)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = -170141183460469231731687303715884105728i128, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((-170141183460469231731687303715884105728i128), ((-170141183460469231731687303715884105728i128)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ -170141183460469231731687303715884105728i128 }, ({ (-170141183460469231731687303715884105728i128) }), a = { -170141183460469231731687303715884105728i128 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(-170141183460469231731687303715884105728i128, x, -170141183460469231731687303715884105728i128)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(-170141183460469231731687303715884105728i128), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(-170141183460469231731687303715884105728i128 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(-170141183460469231731687303715884105728i128 = bool!(k), (-170141183460469231731687303715884105728i128) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(-170141183460469231731687303715884105728i128)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; -170141183460469231731687303715884105728i128 }, x)) }
        13 => { lit(w); end(b, -170141183460469231731687303715884105728i128) }
        14 => { let v = -170141183460469231731687303715884105728i128; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = -170141183460469231731687303715884105728i128; let c = b!(v); let v = -170141183460469231731687303715884105728i128; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(-170141183460469231731687303715884105728i128)) }
        17 => { w!["<p></p>"]; end(b, p!({ -170141183460469231731687303715884105728i128; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { -170141183460469231731687303715884105728i128; }, { { -170141183460469231731687303715884105728i128; } }, { -170141183460469231731687303715884105728i128; x }, { -170141183460469231731687303715884105728i128; -170141183460469231731687303715884105728i128 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { -170141183460469231731687303715884105728i128 }, loop { break -170141183460469231731687303715884105728i128 }, 'q: { break 'q -170141183460469231731687303715884105728i128 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { -170141183460469231731687303715884105728i128 } else { -170141183460469231731687303715884105728i128 }, match k { _ => -170141183460469231731687303715884105728i128 }, (|| -170141183460469231731687303715884105728i128)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(-170141183460469231731687303715884105728i128), [-170141183460469231731687303715884105728i128][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [-170141183460469231731687303715884105728i128, -170141183460469231731687303715884105728i128])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(-170141183460469231731687303715884105728i128) } else { frag!(p!({ -170141183460469231731687303715884105728i128 })) }), -170141183460469231731687303715884105728i128)) }
    } }
    h_22_l170(b) { let w = "0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0u128)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0u128)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0u128, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0u128, "b", 0u128)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0u128, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0u128), ((0u128)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0u128 }, ({ (0u128) }), a = { 0u128 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0u128, x, 0u128)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0u128), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0u128 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0u128 = bool!(k), (0u128) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0u128)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0u128 }, x)) }
        13 => { lit(w); end(b, 0u128) }
        14 => { let v = 0u128; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0u128; let c = b!(v); let v = 0u128; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0u128)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0u128; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0u128; }, { { 0u128; } }, { 0u128; x }, { 0u128; 0u128 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0u128 }, loop { break 0u128 }, 'q: { break 'q 0u128 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0u128 } else { 0u128 }, match k { _ => 0u128 }, (|| 0u128)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0u128), [0u128][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0u128, 0u128])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0u128) } else { frag!(p!({ 0u128 })) }), 0u128)) }
    } }
    h_22_l171(b) { let w = "7"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(7_i128)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(7_i128)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 7_i128, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 7_i128, "b", 7_i128)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 7_i128, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((7_i128), ((7_i128)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 7_i128 }, ({ (7_i128) }), a = { 7_i128 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(7_i128, x, 7_i128)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(7_i128), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(7_i128 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(7_i128 = bool!(k), (7_i128) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(7_i128)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 7_i128 }, x)) }
        13 => { lit(w); end(b, 7_i128) }
        14 => { let v = 7_i128; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 7_i128; let c = b!(v); let v = 7_i128; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(7_i128)) }
        17 => { w!["<p></p>"]; end(b, p!({ 7_i128; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 7_i128; }, { { 7_i128; } }, { 7_i128; x }, { 7_i128; 7_i128 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 7_i128 }, loop { break 7_i128 }, 'q: { break 'q 7_i128 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 7_i128 } else { 7_i128 }, match k { _ => 7_i128 }, (|| 7_i128)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(7_i128), [7_i128][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [7_i128, 7_i128])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(7_i128) } else { frag!(p!({ 7_i128 })) }), 7_i128)) }
    } }
    h_22_l172(b) { let w = "1"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1usize)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1usize)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1usize, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1usize, "b", 1usize)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1usize, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1usize), ((1usize)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1usize }, ({ (1usize) }), a = { 1usize })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1usize, x, 1usize)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1usize), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1usize = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1usize = bool!(k), (1usize) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1usize)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1usize }, x)) }
        13 => { lit(w); end(b, 1usize) }
        14 => { let v = 1usize; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1usize; let c = b!(v); let v = 1usize; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1usize)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1usize; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1usize; }, { { 1usize; } }, { 1usize; x }, { 1usize; 1usize })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1usize }, loop { break 1usize }, 'q: { break 'q 1usize })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1usize } else { 1usize }, match k { _ => 1usize }, (|| 1usize)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1usize), [1usize][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1usize, 1usize])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1usize) } else { frag!(p!({ 1usize })) }), 1usize)) }
    } }
    h_22_l173(b) { let w = "5"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(5isize)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(5isize)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 5isize, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 5isize, "b", 5isize)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 5isize, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((5isize), ((5isize)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 5isize }, ({ (5isize) }), a = { 5isize })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(5isize, x, 5isize)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(5isize), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(5isize = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(5isize = bool!(k), (5isize) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(5isize)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 5isize }, x)) }
        13 => { lit(w); end(b, 5isize) }
        14 => { let v = 5isize; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 5isize; let c = b!(v); let v = 5isize; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(5isize)) }
        17 => { w!["<p></p>"]; end(b, p!({ 5isize; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 5isize; }, { { 5isize; } }, { 5isize; x }, { 5isize; 5isize })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 5isize }, loop { break 5isize }, 'q: { break 'q 5isize })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 5isize } else { 5isize }, match k { _ => 5isize }, (|| 5isize)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(5isize), [5isize][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [5isize, 5isize])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(5isize) } else { frag!(p!({ 5isize })) }), 5isize)) }
    } }
    h_22_l174(b) { let w = "18446744073709551615"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(18446744073709551615usize)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(18446744073709551615usize)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 18446744073709551615usize, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 18446744073709551615usize, "b", 18446744073709551615usize)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 18446744073709551615usize, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((18446744073709551615usize), ((18446744073709551615usize)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 18446744073709551615usize }, ({ (18446744073709551615usize) }), a = { 18446744073709551615usize })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(18446744073709551615usize, x, 18446744073709551615usize)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(18446744073709551615usize), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(18446744073709551615usize = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(18446744073709551615usize = bool!(k), (18446744073709551615usize) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(18446744073709551615usize)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 18446744073709551615usize }, x)) }
        13 => { lit(w); end(b, 18446744073709551615usize) }
        14 => { let v = 18446744073709551615usize; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 18446744073709551615usize; let c = b!(v); let v = 18446744073709551615usize; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(18446744073709551615usize)) }
        17 => { w!["<p></p>"]; end(b, p!({ 18446744073709551615usize; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 18446744073709551615usize; }, { { 18446744073709551615usize; } }, { 18446744073709551615usize; x }, { 18446744073709551615usize; 18446744073709551615usize })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 18446744073709551615usize }, loop { break 18446744073709551615usize }, 'q: { break 'q 18446744073709551615usize })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 18446744073709551615usize } else { 18446744073709551615usize }, match k { _ => 18446744073709551615usize }, (|| 18446744073709551615usize)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(18446744073709551615usize), [18446744073709551615usize][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [18446744073709551615usize, 18446744073709551615usize])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(18446744073709551615usize) } else { frag!(p!({ 18446744073709551615usize })) }), 18446744073709551615usize)) }
    } }
    h_22_l175(b) { let w = "-1"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(-1)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(-1)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, -1, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", -1, "b", -1)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = -1, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((-1), ((-1)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ -1 }, ({ (-1) }), a = { -1 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(-1, x, -1)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(-1), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(-1 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(-1 = bool!(k), (-1) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(-1)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; -1 }, x)) }
        13 => { lit(w); end(b, -1) }
        14 => { let v = -1; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = -1; let c = b!(v); let v = -1; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(-1)) }
        17 => { w!["<p></p>"]; end(b, p!({ -1; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { -1; }, { { -1; } }, { -1; x }, { -1; -1 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { -1 }, loop { break -1 }, 'q: { break 'q -1 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { -1 } else { -1 }, match k { _ => -1 }, (|| -1)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(-1), [-1][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [-1, -1])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(-1) } else { frag!(p!({ -1 })) }), -1)) }
    } }
    h_22_l176(b) { let w = "0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(-0)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(-0)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, -0, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", -0, "b", -0)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = -0, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((-0), ((-0)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ -0 }, ({ (-0) }), a = { -0 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(-0, x, -0)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(-0), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(-0 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(-0 = bool!(k), (-0) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(-0)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; -0 }, x)) }
        13 => { lit(w); end(b, -0) }
        14 => { let v = -0; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = -0; let c = b!(v); let v = -0; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(-0)) }
        17 => { w!["<p></p>"]; end(b, p!({ -0; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { -0; }, { { -0; } }, { -0; x }, { -0; -0 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { -0 }, loop { break -0 }, 'q: { break 'q -0 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { -0 } else { -0 }, match k { _ => -0 }, (|| -0)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(-0), [-0][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [-0, -0])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(-0) } else { frag!(p!({ -0 })) }), -0)) }
    } }
    h_22_l177(b) { let w = "31"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0x1Fi64)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0x1Fi64)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0x1Fi64, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0x1Fi64, "b", 0x1Fi64)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0x1Fi64, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0x1Fi64), ((0x1Fi64)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0x1Fi64 }, ({ (0x1Fi64) }), a = { 0x1Fi64 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0x1Fi64, x, 0x1Fi64)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0x1Fi64), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0x1Fi64 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0x1Fi64 = bool!(k), (0x1Fi64) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0x1Fi64)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0x1Fi64 }, x)) }
        13 => { lit(w); end(b, 0x1Fi64) }
        14 => { let v = 0x1Fi64; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0x1Fi64; let c = b!(v); let v = 0x1Fi64; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0x1Fi64)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0x1Fi64; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0x1Fi64; }, { { 0x1Fi64; } }, { 0x1Fi64; x }, { 0x1Fi64; 0x1Fi64 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0x1Fi64 }, loop { break 0x1Fi64 }, 'q: { break 'q 0x1Fi64 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0x1Fi64 } else { 0x1Fi64 }, match k { _ => 0x1Fi64 }, (|| 0x1Fi64)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0x1Fi64), [0x1Fi64][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0x1Fi64, 0x1Fi64])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0x1Fi64) } else { frag!(p!({ 0x1Fi64 })) }), 0x1Fi64)) }
    } }
    h_22_l178(b) { let w = "63"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0o7_7u16)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0o7_7u16)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0o7_7u16, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0o7_7u16, "b", 0o7_7u16)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0o7_7u16, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0o7_7u16), ((0o7_7u16)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0o7_7u16 }, ({ (0o7_7u16) }), a = { 0o7_7u16 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0o7_7u16, x, 0o7_7u16)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0o7_7u16), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0o7_7u16 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0o7_7u16 = bool!(k), (0o7_7u16) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0o7_7u16)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0o7_7u16 }, x)) }
        13 => { lit(w); end(b, 0o7_7u16) }
        14 => { let v = 0o7_7u16; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0o7_7u16; let c = b!(v); let v = 0o7_7u16; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0o7_7u16)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0o7_7u16; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0o7_7u16; }, { { 0o7_7u16; } }, { 0o7_7u16; x }, { 0o7_7u16; 0o7_7u16 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0o7_7u16 }, loop { break 0o7_7u16 }, 'q: { break 'q 0o7_7u16 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0o7_7u16 } else { 0o7_7u16 }, match k { _ => 0o7_7u16 }, (|| 0o7_7u16)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0o7_7u16), [0o7_7u16][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0o7_7u16, 0o7_7u16])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0o7_7u16) } else { frag!(p!({ 0o7_7u16 })) }), 0o7_7u16)) }
    } }
    h_22_l179(b) { let w = "0.0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0.0)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0.0)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0.0, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0.0, "b", 0.0)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0.0, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0.0), ((0.0)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0.0 }, ({ (0.0) }), a = { 0.0 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0.0, x, 0.0)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0.0), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0.0 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0.0 = bool!(k), (0.0) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0.0)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0.0 }, x)) }
        13 => { lit(w); end(b, 0.0) }
        14 => { let v = 0.0; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0.0; let c = b!(v); let v = 0.0; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0.0)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0.0; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0.0; }, { { 0.0; } }, { 0.0; x }, { 0.0; 0.0 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0.0 }, loop { break 0.0 }, 'q: { break 'q 0.0 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0.0 } else { 0.0 }, match k { _ => 0.0 }, (|| 0.0)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0.0), [0.0][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0.0, 0.0])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0.0) } else { frag!(p!({ 0.0 })) }), 0.0)) }
    } }
    h_22_l180(b) { let w = "1.0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1.0)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1.0)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1.0, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1.0, "b", 1.0)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1.0, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1.0), ((1.0)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1.0 }, ({ (1.0) }), a = { 1.0 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1.0, x, 1.0)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1.0), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1.0 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1.0 = bool!(k), (1.0) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1.0)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1.0 }, x)) }
        13 => { lit(w); end(b, 1.0) }
        14 => { let v = 1.0; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1.0; let c = b!(v); let v = 1.0; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1.0)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1.0; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1.0; }, { { 1.0; } }, { 1.0; x }, { 1.0; 1.0 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1.0 }, loop { break 1.0 }, 'q: { break 'q 1.0 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1.0 } else { 1.0 }, match k { _ => 1.0 }, (|| 1.0)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1.0), [1.0][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1.0, 1.0])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1.0) } else { frag!(p!({ 1.0 })) }), 1.0)) }
    } }
    h_22_l181(b) { let w = "1.5"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1.5)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1.5)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1.5, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1.5, "b", 1.5)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1.5, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1.5), ((1.5)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1.5 }, ({ (1.5) }), a = { 1.5 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1.5, x, 1.5)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1.5), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1.5 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1.5 = bool!(k), (1.5) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1.5)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1.5 }, x)) }
        13 => { lit(w); end(b, 1.5) }
        14 => { let v = 1.5; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1.5; let c = b!(v); let v = 1.5; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1.5)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1.5; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1.5; }, { { 1.5; } }, { 1.5; x }, { 1.5; 1.5 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1.5 }, loop { break 1.5 }, 'q: { break 'q 1.5 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1.5 } else { 1.5 }, match k { _ => 1.5 }, (|| 1.5)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1.5), [1.5][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1.5, 1.5])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1.5) } else { frag!(p!({ 1.5 })) }), 1.5)) }
    } }
    h_22_l182(b) { let w = "0.1"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0.1)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0.1)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0.1, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0.1, "b", 0.1)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0.1, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0.1), ((0.1)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0.1 }, ({ (0.1) }), a = { 0.1 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0.1, x, 0.1)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0.1), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0.1 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0.1 = bool!(k), (0.1) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0.1)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0.1 }, x)) }
        13 => { lit(w); end(b, 0.1) }
        14 => { let v = 0.1; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0.1; let c = b!(v); let v = 0.1; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0.1)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0.1; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0.1; }, { { 0.1; } }, { 0.1; x }, { 0.1; 0.1 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0.1 }, loop { break 0.1 }, 'q: { break 'q 0.1 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0.1 } else { 0.1 }, match k { _ => 0.1 }, (|| 0.1)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0.1), [0.1][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0.1, 0.1])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0.1) } else { frag!(p!({ 0.1 })) }), 0.1)) }
    } }
    h_22_l183(b) { let w = "10000000000.0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1e10)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1e10)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1e10, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1e10, "b", 1e10)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1e10, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1e10), ((1e10)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1e10 }, ({ (1e10) }), a = { 1e10 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1e10, x, 1e10)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1e10), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1e10 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1e10 = bool!(k), (1e10) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1e10)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1e10 }, x)) }
        13 => { lit(w); end(b, 1e10) }
        14 => { let v = 1e10; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1e10; let c = b!(v); let v = 1e10; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1e10)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1e10; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1e10; }, { { 1e10; } }, { 1e10; x }, { 1e10; 1e10 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1e10 }, loop { break 1e10 }, 'q: { break 'q 1e10 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1e10 } else { 1e10 }, match k { _ => 1e10 }, (|| 1e10)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1e10), [1e10][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1e10, 1e10])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1e10) } else { frag!(p!({ 1e10 })) }), 1e10)) }
    } }
    h_22_l184(b) { let w = "1000000000000000.0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1e15)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1e15)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1e15, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1e15, "b", 1e15)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1e15, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1e15), ((1e15)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1e15 }, ({ (1e15) }), a = { 1e15 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1e15, x, 1e15)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1e15), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1e15 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1e15 = bool!(k), (1e15) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1e15)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1e15 }, x)) }
        13 => { lit(w); end(b, 1e15) }
        14 => { let v = 1e15; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1e15; let c = b!(v); let v = 1e15; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1e15)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1e15; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1e15; }, { { 1e15; } }, { 1e15; x }, { 1e15; 1e15 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1e15 }, loop { break 1e15 }, 'q: { break 'q 1e15 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1e15 } else { 1e15 }, match k { _ => 1e15 }, (|| 1e15)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1e15), [1e15][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1e15, 1e15])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1e15) } else { frag!(p!({ 1e15 })) }), 1e15)) }
    } }
    h_22_l185(b) { let w = "1e16"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1e16)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1e16)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1e16, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1e16, "b", 1e16)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1e16, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1e16), ((1e16)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1e16 }, ({ (1e16) }), a = { 1e16 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1e16, x, 1e16)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1e16), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1e16 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1e16 = bool!(k), (1e16) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1e16)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1e16 }, x)) }
        13 => { lit(w); end(b, 1e16) }
        14 => { let v = 1e16; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1e16; let c = b!(v); let v = 1e16; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1e16)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1e16; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1e16; }, { { 1e16; } }, { 1e16; x }, { 1e16; 1e16 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1e16 }, loop { break 1e16 }, 'q: { break 'q 1e16 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1e16 } else { 1e16 }, match k { _ => 1e16 }, (|| 1e16)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1e16), [1e16][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1e16, 1e16])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1e16) } else { frag!(p!({ 1e16 })) }), 1e16)) }
    } }
    h_22_l186(b) { let w = "1e-7"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1e-7)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1e-7)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1e-7, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1e-7, "b", 1e-7)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1e-7, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1e-7), ((1e-7)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1e-7 }, ({ (1e-7) }), a = { 1e-7 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1e-7, x, 1e-7)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1e-7), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1e-7 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1e-7 = bool!(k), (1e-7) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1e-7)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1e-7 }, x)) }
        13 => { lit(w); end(b, 1e-7) }
        14 => { let v = 1e-7; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1e-7; let c = b!(v); let v = 1e-7; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1e-7)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1e-7; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1e-7; }, { { 1e-7; } }, { 1e-7; x }, { 1e-7; 1e-7 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1e-7 }, loop { break 1e-7 }, 'q: { break 'q 1e-7 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1e-7 } else { 1e-7 }, match k { _ => 1e-7 }, (|| 1e-7)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1e-7), [1e-7][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1e-7, 1e-7])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1e-7) } else { frag!(p!({ 1e-7 })) }), 1e-7)) }
    } }
    h_22_l187(b) { let w = "0.0001"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0.0001)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0.0001)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0.0001, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0.0001, "b", 0.0001)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0.0001, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0.0001), ((0.0001)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0.0001 }, ({ (0.0001) }), a = { 0.0001 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0.0001, x, 0.0001)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0.0001), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0.0001 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0.0001 = bool!(k), (0.0001) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0.0001)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0.0001 }, x)) }
        13 => { lit(w); end(b, 0.0001) }
        14 => { let v = 0.0001; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0.0001; let c = b!(v); let v = 0.0001; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0.0001)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0.0001; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0.0001; }, { { 0.0001; } }, { 0.0001; x }, { 0.0001; 0.0001 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0.0001 }, loop { break 0.0001 }, 'q: { break 'q 0.0001 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0.0001 } else { 0.0001 }, match k { _ => 0.0001 }, (|| 0.0001)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0.0001), [0.0001][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0.0001, 0.0001])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0.0001) } else { frag!(p!({ 0.0001 })) }), 0.0001)) }
    } }
    h_22_l188(b) { let w = "0.00001"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0.00001)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0.00001)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0.00001, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0.00001, "b", 0.00001)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0.00001, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0.00001), ((0.00001)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0.00001 }, ({ (0.00001) }), a = { 0.00001 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0.00001, x, 0.00001)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0.00001), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0.00001 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0.00001 = bool!(k), (0.00001) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0.00001)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0.00001 }, x)) }
        13 => { lit(w); end(b, 0.00001) }
        14 => { let v = 0.00001; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0.00001; let c = b!(v); let v = 0.00001; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0.00001)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0.00001; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0.00001; }, { { 0.00001; } }, { 0.00001; x }, { 0.00001; 0.00001 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0.00001 }, loop { break 0.00001 }, 'q: { break 'q 0.00001 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0.00001 } else { 0.00001 }, match k { _ => 0.00001 }, (|| 0.00001)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0.00001), [0.00001][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0.00001, 0.00001])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0.00001) } else { frag!(p!({ 0.00001 })) }), 0.00001)) }
    } }
    h_22_l189(b) { let w = "3.141592653589793"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(3.141592653589793)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(3.141592653589793)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 3.141592653589793, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 3.141592653589793, "b", 3.141592653589793)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 3.141592653589793, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((3.141592653589793), ((3.141592653589793)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 3.141592653589793 }, ({ (3.141592653589793) }), a = { 3.141592653589793 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(3.141592653589793, x, 3.141592653589793)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(3.141592653589793), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(3.141592653589793 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(3.141592653589793 = bool!(k), (3.141592653589793) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(3.141592653589793)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 3.141592653589793 }, x)) }
        13 => { lit(w); end(b, 3.141592653589793) }
        14 => { let v = 3.141592653589793; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 3.141592653589793; let c = b!(v); let v = 3.141592653589793; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(3.141592653589793)) }
        17 => { w!["<p></p>"]; end(b, p!({ 3.141592653589793; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 3.141592653589793; }, { { 3.141592653589793; } }, { 3.141592653589793; x }, { 3.141592653589793; 3.141592653589793 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 3.141592653589793 }, loop { break 3.141592653589793 }, 'q: { break 'q 3.141592653589793 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 3.141592653589793 } else { 3.141592653589793 }, match k { _ => 3.141592653589793 }, (|| 3.141592653589793)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(3.141592653589793), [3.141592653589793][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [3.141592653589793, 3.141592653589793])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(3.141592653589793) } else { frag!(p!({ 3.141592653589793 })) }), 3.141592653589793)) }
    } }
    h_22_l190(b) { let w = "1.7976931348623157e308"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1.7976931348623157e308)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1.7976931348623157e308)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1.7976931348623157e308, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1.7976931348623157e308, "b", 1.7976931348623157e308)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1.7976931348623157e308, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1.7976931348623157e308), ((1.7976931348623157e308)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1.7976931348623157e308 }, ({ (1.7976931348623157e308) }), a = { 1.7976931348623157e308 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1.7976931348623157e308, x, 1.7976931348623157e308)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1.7976931348623157e308), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1.7976931348623157e308 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1.7976931348623157e308 = bool!(k), (1.7976931348623157e308) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1.7976931348623157e308)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1.7976931348623157e308 }, x)) }
        13 => { lit(w); end(b, 1.7976931348623157e308) }
        14 => { let v = 1.7976931348623157e308; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1.7976931348623157e308; let c = b!(v); let v = 1.7976931348623157e308; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1.7976931348623157e308)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1.7976931348623157e308; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1.7976931348623157e308; }, { { 1.7976931348623157e308; } }, { 1.7976931348623157e308; x }, { 1.7976931348623157e308; 1.7976931348623157e308 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1.7976931348623157e308 }, loop { break 1.7976931348623157e308 }, 'q: { break 'q 1.7976931348623157e308 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1.7976931348623157e308 } else { 1.7976931348623157e308 }, match k { _ => 1.7976931348623157e308 }, (|| 1.7976931348623157e308)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1.7976931348623157e308), [1.7976931348623157e308][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1.7976931348623157e308, 1.7976931348623157e308])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1.7976931348623157e308) } else { frag!(p!({ 1.7976931348623157e308 })) }), 1.7976931348623157e308)) }
    } }
    h_22_l191(b) { let w = "5e-324"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(5e-324)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(5e-324)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 5e-324, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 5e-324, "b", 5e-324)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 5e-324, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((5e-324), ((5e-324)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 5e-324 }, ({ (5e-324) }), a = { 5e-324 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(5e-324, x, 5e-324)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(5e-324), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(5e-324 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(5e-324 = bool!(k), (5e-324) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(5e-324)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 5e-324 }, x)) }
        13 => { lit(w); end(b, 5e-324) }
        14 => { let v = 5e-324; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 5e-324; let c = b!(v); let v = 5e-324; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(5e-324)) }
        17 => { w!["<p></p>"]; end(b, p!({ 5e-324; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 5e-324; }, { { 5e-324; } }, { 5e-324; x }, { 5e-324; 5e-324 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 5e-324 }, loop { break 5e-324 }, 'q: { break 'q 5e-324 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 5e-324 } else { 5e-324 }, match k { _ => 5e-324 }, (|| 5e-324)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(5e-324), [5e-324][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [5e-324, 5e-324])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(5e-324) } else { frag!(p!({ 5e-324 })) }), 5e-324)) }
    } }
    h_22_l192(b) { let w = "2.5"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(2.5f32)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(2.5f32)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 2.5f32, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 2.5f32, "b", 2.5f32)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 2.5f32, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((2.5f32), ((2.5f32)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 2.5f32 }, ({ (2.5f32) }), a = { 2.5f32 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(2.5f32, x, 2.5f32)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(2.5f32), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(2.5f32 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(2.5f32 = bool!(k), (2.5f32) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(2.5f32)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 2.5f32 }, x)) }
        13 => { lit(w); end(b, 2.5f32) }
        14 => { let v = 2.5f32; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 2.5f32; let c = b!(v); let v = 2.5f32; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(2.5f32)) }
        17 => { w!["<p></p>"]; end(b, p!({ 2.5f32; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 2.5f32; }, { { 2.5f32; } }, { 2.5f32; x }, { 2.5f32; 2.5f32 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 2.5f32 }, loop { break 2.5f32 }, 'q: { break 'q 2.5f32 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 2.5f32 } else { 2.5f32 }, match k { _ => 2.5f32 }, (|| 2.5f32)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(2.5f32), [2.5f32][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [2.5f32, 2.5f32])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(2.5f32) } else { frag!(p!({ 2.5f32 })) }), 2.5f32)) }
    } }
    h_22_l193(b) { let w = "0.1"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0.1f32)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0.1f32)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0.1f32, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0.1f32, "b", 0.1f32)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0.1f32, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0.1f32), ((0.1f32)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0.1f32 }, ({ (0.1f32) }), a = { 0.1f32 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0.1f32, x, 0.1f32)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0.1f32), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0.1f32 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0.1f32 = bool!(k), (0.1f32) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0.1f32)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0.1f32 }, x)) }
        13 => { lit(w); end(b, 0.1f32) }
        14 => { let v = 0.1f32; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0.1f32; let c = b!(v); let v = 0.1f32; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0.1f32)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0.1f32; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0.1f32; }, { { 0.1f32; } }, { 0.1f32; x }, { 0.1f32; 0.1f32 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0.1f32 }, loop { break 0.1f32 }, 'q: { break 'q 0.1f32 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0.1f32 } else { 0.1f32 }, match k { _ => 0.1f32 }, (|| 0.1f32)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0.1f32), [0.1f32][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0.1f32, 0.1f32])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0.1f32) } else { frag!(p!({ 0.1f32 })) }), 0.1f32)) }
    } }
    h_22_l194(b) { let w = "16777216.0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(16777217.0f32)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(16777217.0f32)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 16777217.0f32, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 16777217.0f32, "b", 16777217.0f32)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 16777217.0f32, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((16777217.0f32), ((16777217.0f32)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 16777217.0f32 }, ({ (16777217.0f32) }), a = { 16777217.0f32 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(16777217.0f32, x, 16777217.0f32)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(16777217.0f32), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(16777217.0f32 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(16777217.0f32 = bool!(k), (16777217.0f32) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(16777217.0f32)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 16777217.0f32 }, x)) }
        13 => { lit(w); end(b, 16777217.0f32) }
        14 => { let v = 16777217.0f32; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 16777217.0f32; let c = b!(v); let v = 16777217.0f32; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(16777217.0f32)) }
        17 => { w!["<p></p>"]; end(b, p!({ 16777217.0f32; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 16777217.0f32; }, { { 16777217.0f32; } }, { 16777217.0f32; x }, { 16777217.0f32; 16777217.0f32 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 16777217.0f32 }, loop { break 16777217.0f32 }, 'q: { break 'q 16777217.0f32 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 16777217.0f32 } else { 16777217.0f32 }, match k { _ => 16777217.0f32 }, (|| 16777217.0f32)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(16777217.0f32), [16777217.0f32][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [16777217.0f32, 16777217.0f32])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(16777217.0f32) } else { frag!(p!({ 16777217.0f32 })) }), 16777217.0f32)) }
    } }
    h_22_l195(b) { let w = "1.0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1f32)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1f32)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1f32, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1f32, "b", 1f32)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1f32, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1f32), ((1f32)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1f32 }, ({ (1f32) }), a = { 1f32 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1f32, x, 1f32)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1f32), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1f32 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1f32 = bool!(k), (1f32) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1f32)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1f32 }, x)) }
        13 => { lit(w); end(b, 1f32) }
        14 => { let v = 1f32; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1f32; let c = b!(v); let v = 1f32; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1f32)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1f32; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1f32; }, { { 1f32; } }, { 1f32; x }, { 1f32; 1f32 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1f32 }, loop { break 1f32 }, 'q: { break 'q 1f32 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1f32 } else { 1f32 }, match k { _ => 1f32 }, (|| 1f32)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1f32), [1f32][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1f32, 1f32])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1f32) } else { frag!(p!({ 1f32 })) }), 1f32)) }
    } }
    h_22_l196(b) { let w = "1.0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1f64)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1f64)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1f64, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1f64, "b", 1f64)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1f64, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1f64), ((1f64)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1f64 }, ({ (1f64) }), a = { 1f64 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1f64, x, 1f64)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1f64), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1f64 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1f64 = bool!(k), (1f64) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1f64)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1f64 }, x)) }
        13 => { lit(w); end(b, 1f64) }
        14 => { let v = 1f64; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1f64; let c = b!(v); let v = 1f64; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1f64)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1f64; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1f64; }, { { 1f64; } }, { 1f64; x }, { 1f64; 1f64 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1f64 }, loop { break 1f64 }, 'q: { break 'q 1f64 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1f64 } else { 1f64 }, match k { _ => 1f64 }, (|| 1f64)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1f64), [1f64][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1f64, 1f64])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1f64) } else { frag!(p!({ 1f64 })) }), 1f64)) }
    } }
    h_22_l197(b) { let w = "1.0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1.)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1.)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1., x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1., "b", 1.)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1., b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1.), ((1.)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1. }, ({ (1.) }), a = { 1. })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1., x, 1.)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1.), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1. = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1. = bool!(k), (1.) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1.)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1. }, x)) }
        13 => { lit(w); end(b, 1.) }
        14 => { let v = 1.; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1.; let c = b!(v); let v = 1.; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1.)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1.; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1.; }, { { 1.; } }, { 1.; x }, { 1.; 1. })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1. }, loop { break 1. }, 'q: { break 'q 1. })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1. } else { 1. }, match k { _ => 1. }, (|| 1.)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1.), [1.][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1., 1.])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1.) } else { frag!(p!({ 1. })) }), 1.)) }
    } }
    h_22_l198(b) { let w = "1000.0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1e3f32)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1e3f32)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1e3f32, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1e3f32, "b", 1e3f32)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1e3f32, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1e3f32), ((1e3f32)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1e3f32 }, ({ (1e3f32) }), a = { 1e3f32 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1e3f32, x, 1e3f32)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1e3f32), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1e3f32 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1e3f32 = bool!(k), (1e3f32) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1e3f32)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1e3f32 }, x)) }
        13 => { lit(w); end(b, 1e3f32) }
        14 => { let v = 1e3f32; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1e3f32; let c = b!(v); let v = 1e3f32; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1e3f32)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1e3f32; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1e3f32; }, { { 1e3f32; } }, { 1e3f32; x }, { 1e3f32; 1e3f32 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1e3f32 }, loop { break 1e3f32 }, 'q: { break 'q 1e3f32 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1e3f32 } else { 1e3f32 }, match k { _ => 1e3f32 }, (|| 1e3f32)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1e3f32), [1e3f32][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1e3f32, 1e3f32])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1e3f32) } else { frag!(p!({ 1e3f32 })) }), 1e3f32)) }
    } }
    h_22_l199(b) { let w = "10.5"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1_0.5)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1_0.5)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1_0.5, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1_0.5, "b", 1_0.5)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1_0.5, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1_0.5), ((1_0.5)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1_0.5 }, ({ (1_0.5) }), a = { 1_0.5 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1_0.5, x, 1_0.5)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1_0.5), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1_0.5 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1_0.5 = bool!(k), (1_0.5) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1_0.5)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1_0.5 }, x)) }
        13 => { lit(w); end(b, 1_0.5) }
        14 => { let v = 1_0.5; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1_0.5; let c = b!(v); let v = 1_0.5; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1_0.5)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1_0.5; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1_0.5; }, { { 1_0.5; } }, { 1_0.5; x }, { 1_0.5; 1_0.5 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1_0.5 }, loop { break 1_0.5 }, 'q: { break 'q 1_0.5 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1_0.5 } else { 1_0.5 }, match k { _ => 1_0.5 }, (|| 1_0.5)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1_0.5), [1_0.5][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1_0.5, 1_0.5])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1_0.5) } else { frag!(p!({ 1_0.5 })) }), 1_0.5)) }
    } }
    h_22_l200(b) { let w = "100000.0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1E5)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1E5)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1E5, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1E5, "b", 1E5)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1E5, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1E5), ((1E5)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1E5 }, ({ (1E5) }), a = { 1E5 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1E5, x, 1E5)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1E5), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1E5 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1E5 = bool!(k), (1E5) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1E5)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1E5 }, x)) }
        13 => { lit(w); end(b, 1E5) }
        14 => { let v = 1E5; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1E5; let c = b!(v); let v = 1E5; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1E5)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1E5; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1E5; }, { { 1E5; } }, { 1E5; x }, { 1E5; 1E5 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1E5 }, loop { break 1E5 }, 'q: { break 'q 1E5 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1E5 } else { 1E5 }, match k { _ => 1E5 }, (|| 1E5)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1E5), [1E5][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1E5, 1E5])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1E5) } else { frag!(p!({ 1E5 })) }), 1E5)) }
    } }
    h_22_l201(b) { let w = "123456789.125"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(123456789.125f64)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(123456789.125f64)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 123456789.125f64, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 123456789.125f64, "b", 123456789.125f64)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 123456789.125f64, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((123456789.125f64), ((123456789.125f64)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 123456789.125f64 }, ({ (123456789.125f64) }), a = { 123456789.125f64 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(123456789.125f64, x, 123456789.125f64)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(123456789.125f64), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(123456789.125f64 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(123456789.125f64 = bool!(k), (123456789.125f64) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(123456789.125f64)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 123456789.125f64 }, x)) }
        13 => { lit(w); end(b, 123456789.125f64) }
        14 => { let v = 123456789.125f64; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 123456789.125f64; let c = b!(v); let v = 123456789.125f64; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(123456789.125f64)) }
        17 => { w!["<p></p>"]; end(b, p!({ 123456789.125f64; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 123456789.125f64; }, { { 123456789.125f64; } }, { 123456789.125f64; x }, { 123456789.125f64; 123456789.125f64 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 123456789.125f64 }, loop { break 123456789.125f64 }, 'q: { break 'q 123456789.125f64 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 123456789.125f64 } else { 123456789.125f64 }, match k { _ => 123456789.125f64 }, (|| 123456789.125f64)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(123456789.125f64), [123456789.125f64][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [123456789.125f64, 123456789.125f64])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(123456789.125f64) } else { frag!(p!({ 123456789.125f64 })) }), 123456789.125f64)) }
    } }
    h_22_l202(b) { let w = "3.4028235e38"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(3.4028235e38f32)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(3.4028235e38f32)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 3.4028235e38f32, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 3.4028235e38f32, "b", 3.4028235e38f32)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 3.4028235e38f32, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((3.4028235e38f32), ((3.4028235e38f32)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 3.4028235e38f32 }, ({ (3.4028235e38f32) }), a = { 3.4028235e38f32 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(3.4028235e38f32, x, 3.4028235e38f32)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(3.4028235e38f32), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(3.4028235e38f32 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(3.4028235e38f32 = bool!(k), (3.4028235e38f32) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(3.4028235e38f32)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 3.4028235e38f32 }, x)) }
        13 => { lit(w); end(b, 3.4028235e38f32) }
        14 => { let v = 3.4028235e38f32; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 3.4028235e38f32; let c = b!(v); let v = 3.4028235e38f32; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(3.4028235e38f32)) }
        17 => { w!["<p></p>"]; end(b, p!({ 3.4028235e38f32; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 3.4028235e38f32; }, { { 3.4028235e38f32; } }, { 3.4028235e38f32; x }, { 3.4028235e38f32; 3.4028235e38f32 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 3.4028235e38f32 }, loop { break 3.4028235e38f32 }, 'q: { break 'q 3.4028235e38f32 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 3.4028235e38f32 } else { 3.4028235e38f32 }, match k { _ => 3.4028235e38f32 }, (|| 3.4028235e38f32)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(3.4028235e38f32), [3.4028235e38f32][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [3.4028235e38f32, 3.4028235e38f32])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(3.4028235e38f32) } else { frag!(p!({ 3.4028235e38f32 })) }), 3.4028235e38f32)) }
    } }
    h_22_l203(b) { let w = "-1.5"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(-1.5)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(-1.5)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, -1.5, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", -1.5, "b", -1.5)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = -1.5, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((-1.5), ((-1.5)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ -1.5 }, ({ (-1.5) }), a = { -1.5 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(-1.5, x, -1.5)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(-1.5), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(-1.5 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(-1.5 = bool!(k), (-1.5) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(-1.5)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; -1.5 }, x)) }
        13 => { lit(w); end(b, -1.5) }
        14 => { let v = -1.5; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = -1.5; let c = b!(v); let v = -1.5; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(-1.5)) }
        17 => { w!["<p></p>"]; end(b, p!({ -1.5; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { -1.5; }, { { -1.5; } }, { -1.5; x }, { -1.5; -1.5 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { -1.5 }, loop { break -1.5 }, 'q: { break 'q -1.5 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { -1.5 } else { -1.5 }, match k { _ => -1.5 }, (|| -1.5)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(-1.5), [-1.5][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [-1.5, -1.5])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(-1.5) } else { frag!(p!({ -1.5 })) }), -1.5)) }
    } }
    h_22_l204(b) { let w = "-0.0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(-0.0)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(-0.0)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, -0.0, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", -0.0, "b", -0.0)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = -0.0, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((-0.0), ((-0.0)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ -0.0 }, ({ (-0.0) }), a = { -0.0 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(-0.0, x, -0.0)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(-0.0), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(-0.0 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(-0.0 = bool!(k), (-0.0) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(-0.0)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; -0.0 }, x)) }
        13 => { lit(w); end(b, -0.0) }
        14 => { let v = -0.0; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = -0.0; let c = b!(v); let v = -0.0; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(-0.0)) }
        17 => { w!["<p></p>"]; end(b, p!({ -0.0; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { -0.0; }, { { -0.0; } }, { -0.0; x }, { -0.0; -0.0 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { -0.0 }, loop { break -0.0 }, 'q: { break 'q -0.0 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { -0.0 } else { -0.0 }, match k { _ => -0.0 }, (|| -0.0)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(-0.0), [-0.0][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [-0.0, -0.0])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(-0.0) } else { frag!(p!({ -0.0 })) }), -0.0)) }
    } }
    h_22_l205(b) { let w = "0.3"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0.3f64)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0.3f64)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0.3f64, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0.3f64, "b", 0.3f64)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0.3f64, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0.3f64), ((0.3f64)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0.3f64 }, ({ (0.3f64) }), a = { 0.3f64 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0.3f64, x, 0.3f64)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0.3f64), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0.3f64 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0.3f64 = bool!(k), (0.3f64) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0.3f64)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0.3f64 }, x)) }
        13 => { lit(w); end(b, 0.3f64) }
        14 => { let v = 0.3f64; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0.3f64; let c = b!(v); let v = 0.3f64; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0.3f64)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0.3f64; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0.3f64; }, { { 0.3f64; } }, { 0.3f64; x }, { 0.3f64; 0.3f64 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0.3f64 }, loop { break 0.3f64 }, 'q: { break 'q 0.3f64 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0.3f64 } else { 0.3f64 }, match k { _ => 0.3f64 }, (|| 0.3f64)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0.3f64), [0.3f64][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0.3f64, 0.3f64])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0.3f64) } else { frag!(p!({ 0.3f64 })) }), 0.3f64)) }
    } }
    h_22_l206(b) { let w = "0.3"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(0.30000001f32)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(0.30000001f32)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 0.30000001f32, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 0.30000001f32, "b", 0.30000001f32)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 0.30000001f32, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((0.30000001f32), ((0.30000001f32)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 0.30000001f32 }, ({ (0.30000001f32) }), a = { 0.30000001f32 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(0.30000001f32, x, 0.30000001f32)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(0.30000001f32), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(0.30000001f32 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(0.30000001f32 = bool!(k), (0.30000001f32) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(0.30000001f32)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 0.30000001f32 }, x)) }
        13 => { lit(w); end(b, 0.30000001f32) }
        14 => { let v = 0.30000001f32; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 0.30000001f32; let c = b!(v); let v = 0.30000001f32; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(0.30000001f32)) }
        17 => { w!["<p></p>"]; end(b, p!({ 0.30000001f32; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 0.30000001f32; }, { { 0.30000001f32; } }, { 0.30000001f32; x }, { 0.30000001f32; 0.30000001f32 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 0.30000001f32 }, loop { break 0.30000001f32 }, 'q: { break 'q 0.30000001f32 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 0.30000001f32 } else { 0.30000001f32 }, match k { _ => 0.30000001f32 }, (|| 0.30000001f32)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(0.30000001f32), [0.30000001f32][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [0.30000001f32, 0.30000001f32])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(0.30000001f32) } else { frag!(p!({ 0.30000001f32 })) }), 0.30000001f32)) }
    } }
    h_22_l207(b) { let w = "7.0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(7_f64)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(7_f64)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 7_f64, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 7_f64, "b", 7_f64)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 7_f64, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((7_f64), ((7_f64)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 7_f64 }, ({ (7_f64) }), a = { 7_f64 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(7_f64, x, 7_f64)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(7_f64), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(7_f64 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(7_f64 = bool!(k), (7_f64) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(7_f64)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 7_f64 }, x)) }
        13 => { lit(w); end(b, 7_f64) }
        14 => { let v = 7_f64; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 7_f64; let c = b!(v); let v = 7_f64; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(7_f64)) }
        17 => { w!["<p></p>"]; end(b, p!({ 7_f64; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 7_f64; }, { { 7_f64; } }, { 7_f64; x }, { 7_f64; 7_f64 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 7_f64 }, loop { break 7_f64 }, 'q: { break 'q 7_f64 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 7_f64 } else { 7_f64 }, match k { _ => 7_f64 }, (|| 7_f64)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(7_f64), [7_f64][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [7_f64, 7_f64])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(7_f64) } else { frag!(p!({ 7_f64 })) }), 7_f64)) }
    } }
    h_22_l208(b) { let w = "100.0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1e2)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1e2)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1e2, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1e2, "b", 1e2)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1e2, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1e2), ((1e2)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1e2 }, ({ (1e2) }), a = { 1e2 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1e2, x, 1e2)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1e2), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1e2 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1e2 = bool!(k), (1e2) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1e2)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1e2 }, x)) }
        13 => { lit(w); end(b, 1e2) }
        14 => { let v = 1e2; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1e2; let c = b!(v); let v = 1e2; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1e2)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1e2; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1e2; }, { { 1e2; } }, { 1e2; x }, { 1e2; 1e2 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1e2 }, loop { break 1e2 }, 'q: { break 'q 1e2 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1e2 } else { 1e2 }, match k { _ => 1e2 }, (|| 1e2)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1e2), [1e2][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1e2, 1e2])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1e2) } else { frag!(p!({ 1e2 })) }), 1e2)) }
    } }
    h_22_l209(b) { let w = "2.0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(2e0f64)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(2e0f64)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 2e0f64, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 2e0f64, "b", 2e0f64)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 2e0f64, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((2e0f64), ((2e0f64)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 2e0f64 }, ({ (2e0f64) }), a = { 2e0f64 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(2e0f64, x, 2e0f64)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(2e0f64), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(2e0f64 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(2e0f64 = bool!(k), (2e0f64) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(2e0f64)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 2e0f64 }, x)) }
        13 => { lit(w); end(b, 2e0f64) }
        14 => { let v = 2e0f64; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 2e0f64; let c = b!(v); let v = 2e0f64; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(2e0f64)) }
        17 => { w!["<p></p>"]; end(b, p!({ 2e0f64; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 2e0f64; }, { { 2e0f64; } }, { 2e0f64; x }, { 2e0f64; 2e0f64 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 2e0f64 }, loop { break 2e0f64 }, 'q: { break 'q 2e0f64 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 2e0f64 } else { 2e0f64 }, match k { _ => 2e0f64 }, (|| 2e0f64)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(2e0f64), [2e0f64][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [2e0f64, 2e0f64])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(2e0f64) } else { frag!(p!({ 2e0f64 })) }), 2e0f64)) }
    } }
    h_22_l210(b) { let w = "9007199254740992.0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(9007199254740993.0)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(9007199254740993.0)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 9007199254740993.0, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 9007199254740993.0, "b", 9007199254740993.0)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 9007199254740993.0, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((9007199254740993.0), ((9007199254740993.0)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 9007199254740993.0 }, ({ (9007199254740993.0) }), a = { 9007199254740993.0 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(9007199254740993.0, x, 9007199254740993.0)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(9007199254740993.0), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(9007199254740993.0 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(9007199254740993.0 = bool!(k), (9007199254740993.0) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(9007199254740993.0)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 9007199254740993.0 }, x)) }
        13 => { lit(w); end(b, 9007199254740993.0) }
        14 => { let v = 9007199254740993.0; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 9007199254740993.0; let c = b!(v); let v = 9007199254740993.0; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(9007199254740993.0)) }
        17 => { w!["<p></p>"]; end(b, p!({ 9007199254740993.0; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 9007199254740993.0; }, { { 9007199254740993.0; } }, { 9007199254740993.0; x }, { 9007199254740993.0; 9007199254740993.0 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 9007199254740993.0 }, loop { break 9007199254740993.0 }, 'q: { break 'q 9007199254740993.0 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 9007199254740993.0 } else { 9007199254740993.0 }, match k { _ => 9007199254740993.0 }, (|| 9007199254740993.0)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(9007199254740993.0), [9007199254740993.0][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [9007199254740993.0, 9007199254740993.0])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(9007199254740993.0) } else { frag!(p!({ 9007199254740993.0 })) }), 9007199254740993.0)) }
    } }
    h_22_l211(b) { let w = "8388609.0"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(8388609f32)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(8388609f32)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 8388609f32, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 8388609f32, "b", 8388609f32)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 8388609f32, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((8388609f32), ((8388609f32)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 8388609f32 }, ({ (8388609f32) }), a = { 8388609f32 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(8388609f32, x, 8388609f32)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(8388609f32), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(8388609f32 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(8388609f32 = bool!(k), (8388609f32) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(8388609f32)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 8388609f32 }, x)) }
        13 => { lit(w); end(b, 8388609f32) }
        14 => { let v = 8388609f32; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 8388609f32; let c = b!(v); let v = 8388609f32; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(8388609f32)) }
        17 => { w!["<p></p>"]; end(b, p!({ 8388609f32; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 8388609f32; }, { { 8388609f32; } }, { 8388609f32; x }, { 8388609f32; 8388609f32 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 8388609f32 }, loop { break 8388609f32 }, 'q: { break 'q 8388609f32 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 8388609f32 } else { 8388609f32 }, match k { _ => 8388609f32 }, (|| 8388609f32)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(8388609f32), [8388609f32][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [8388609f32, 8388609f32])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(8388609f32) } else { frag!(p!({ 8388609f32 })) }), 8388609f32)) }
    } }
    h_22_l212(b) { let w = "1e13"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1e13f32)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1e13f32)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1e13f32, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1e13f32, "b", 1e13f32)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1e13f32, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1e13f32), ((1e13f32)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1e13f32 }, ({ (1e13f32) }), a = { 1e13f32 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1e13f32, x, 1e13f32)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1e13f32), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1e13f32 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1e13f32 = bool!(k), (1e13f32) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1e13f32)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1e13f32 }, x)) }
        13 => { lit(w); end(b, 1e13f32) }
        14 => { let v = 1e13f32; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1e13f32; let c = b!(v); let v = 1e13f32; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1e13f32)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1e13f32; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1e13f32; }, { { 1e13f32; } }, { 1e13f32; x }, { 1e13f32; 1e13f32 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1e13f32 }, loop { break 1e13f32 }, 'q: { break 'q 1e13f32 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1e13f32 } else { 1e13f32 }, match k { _ => 1e13f32 }, (|| 1e13f32)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1e13f32), [1e13f32][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1e13f32, 1e13f32])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1e13f32) } else { frag!(p!({ 1e13f32 })) }), 1e13f32)) }
    } }
    h_22_l213(b) { let w = "0.00001"; let x = t(1); let k = bool_(); match choose(24) {
        0 => { lit(w); end(b, frag!(1e-5f32)) }
        1 => { w!["<p>", (w), "</p>"]; end(b, p!(1e-5f32)) }
        2 => { w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, 1e-5f32, x)) }
        3 => { w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", 1e-5f32, "b", 1e-5f32)) }
        4 => { w!["<p a=\"", (w), "\" b=\"", [x], "\"></p>"]; end(b, p!(a = 1e-5f32, b = x)) }
        5 => { w!["<p>", (w), (w), "</p>"]; end(b, p!((1e-5f32), ((1e-5f32)))) }
        6 => { w!["<p a=\"", (w), "\">", (w), (w), "</p>"]; end(b, p!({ 1e-5f32 }, ({ (1e-5f32) }), a = { 1e-5f32 })) }
        7 => { w![(w), " ", [x], " ", (w)]; end(b, classes!(1e-5f32, x, 1e-5f32)) }
        8 => { w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(1e-5f32), x)) }
        9 => { w!["<p ", (w), "=\"", [x], "\"></p>"]; end(b, p!(1e-5f32 = x)) }
        10 => { w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(1e-5f32 = bool!(k), (1e-5f32) = bool!(true))) }
        11 => { w!["<p>", (w), "</p>"]; end(b, via!(1e-5f32)) }
        12 => { w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; 1e-5f32 }, x)) }
        13 => { lit(w); end(b, 1e-5f32) }
        14 => { let v = 1e-5f32; w!["<p>", (w), "</p>"]; end(b, p!(v)) }
        15 => { let v = 1e-5f32; let c = b!(v); let v = 1e-5f32; w!["<p ", (w), "=\"", (w), "\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c)) }
        16 => { lit(w); end(b, Some(1e-5f32)) }
        17 => { w!["<p></p>"]; end(b, p!({ 1e-5f32; })) }
        18 => { w!["<p a=\"\">", [x], (w), "</p>"]; end(b, p!(a = { 1e-5f32; }, { { 1e-5f32; } }, { 1e-5f32; x }, { 1e-5f32; 1e-5f32 })) }
        19 => { w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { 1e-5f32 }, loop { break 1e-5f32 }, 'q: { break 'q 1e-5f32 })) }
        20 => { w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { 1e-5f32 } else { 1e-5f32 }, match k { _ => 1e-5f32 }, (|| 1e-5f32)())) }
        21 => { w!["<p a=\"", (w), "\">", (w), "</p>"]; end(b, p!(a = Some(1e-5f32), [1e-5f32][0])) }
        22 => { w![(w), ", ", (w)]; end(b, iter!(", ", [1e-5f32, 1e-5f32])) }
        _ => { w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(1e-5f32) } else { frag!(p!({ 1e-5f32 })) }), 1e-5f32)) }
    } }
} }
