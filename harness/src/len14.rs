//! fixed text of every length (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
case! {
    h_14_len00(b) { let x = t(1); match choose(33) { 0 => {  end(b, frag!("")) }
        1 => { lit("b"); end(b, frag!("b")) }
        2 => { lit("cd"); end(b, frag!("cd")) }
        3 => { lit("def"); end(b, frag!("def")) }
        4 => { lit("efgh"); end(b, frag!("efgh")) }
        5 => { lit("fghij"); end(b, frag!("fghij")) }
        6 => { lit("ghijkl"); end(b, frag!("ghijkl")) }
        7 => { lit("hijklmn"); end(b, frag!("hijklmn")) }
        8 => { lit("ijklmnop"); end(b, frag!("ijklmnop")) }
        9 => { lit("jklmnopqr"); end(b, frag!("jklmnopqr")) }
        10 => { lit("klmnopqrst"); end(b, frag!("klmnopqrst")) }
        11 => { lit("lmnopqrstuv"); end(b, frag!("lmnopqrstuv")) }
        12 => { lit("mnopqrstuvwx"); end(b, frag!("mnopqrstuvwx")) }
        13 => { lit("nopqrstuvwxyz"); end(b, frag!("nopqrstuvwxyz")) }
        14 => { lit("opqrstuvwxyz01"); end(b, frag!("opqrstuvwxyz01")) }
        15 => { lit("<div>pqrs</div>"); end(b, div!("pqrs")) }
        16 => { lit("qrstuvwxyz012345"); end(b, frag!("qrstuvwxyz012345")) }
        17 => { lit("<p id=\"rstuv\"></p>"); end(b, p!(id = "rstuv")) }
        18 => { lit("stuvwxyz0123456789"); end(b, frag!("stuvwxyz0123456789")) }
        19 => { lit("tuvwxyz0123456789ab"); end(b, frag!("tuvwxyz0123456789ab")) }
        20 => { lit("<div>uvwxyz012</div>"); end(b, div!("uvwxyz012")) }
        21 => { lit("vwxyz0123456789abcdef"); end(b, frag!("vwxyz0123456789abcdef")) }
        22 => { lit("<p id=\"wxyz012345\"></p>"); end(b, p!(id = "wxyz012345")) }
        23 => { lit("xyz0123456789abcdefghij"); end(b, frag!("xyz0123456789abcdefghij")) }
        24 => { lit("yz0123456789abcdefghijkl"); end(b, frag!("yz0123456789abcdefghijkl")) }
        25 => { lit("<div>z0123456789abc</div>"); end(b, div!("z0123456789abc")) }
        26 => { lit("<div><b></b><p>k</p></div>"); end(b, div!(b!(), p!("k"))) }
        27 => { lit("<p id=\"123456789abcdef\"></p>"); end(b, p!(id = "123456789abcdef")) }
        28 => { lit("23456789abcdefghijklmnopqrst"); end(b, frag!("23456789abcdefghijklmnopqrst")) }
        29 => { lit("3456789abcdefghijklmnopqrstuv"); end(b, frag!("3456789abcdefghijklmnopqrstuv")) }
        30 => { lit("<div>\u{1f600}56789abcdefghij</div>"); end(b, div!("\u{1f600}56789abcdefghij")) }
        31 => { lit("<div><b></b><p>k</p>56789</div>"); end(b, div!(b!(), p!("k"), "56789")) }
        _ => { lit("<p id=\"6789abcdefghijklmnop\"></p>"); end(b, p!(id = "6789abcdefghijklmnop")) } } }
    h_14_len01(b) { let x = t(1); match choose(33) { 0 => { lit("<p>789abcdef"); esc(x); lit("<b>789abcdefg</b></p>"); end(b, p!("789abcdef", x, b!("789abcdefg"))) }
        1 => { lit("89abcdefghijklmnopqrstuvwxyz0\u{1f600}2"); end(b, frag!("89abcdefghijklmnopqrstuvwxyz0\u{1f600}2")) }
        2 => { lit("<div>9abcdefghijklmnopqrstuvw</div>"); end(b, div!("9abcdefghijklmnopqrstuvw")) }
        3 => { lit("<div><b></b><p>k</p><br>abcdef</div>"); end(b, div!(b!(), p!("k"), br!(), "abcdef")) }
        4 => { lit("<p id=\"bcd世fghijklmnopqrstuvwx\"></p>"); end(b, p!(id = "bcd世fghijklmnopqrstuvwx")) }
        5 => { lit("<p>cdefghijklmn"); esc(x); lit("<b>cdefgh\u{1f600}jk</b></p>"); end(b, p!("cdefghijklmn", x, b!("cdefgh\u{1f600}jk"))) }
        6 => { lit("defghijklmnopqrstuvwxyz0123456789abcdef"); end(b, frag!("defghijklmnopqrstuvwxyz0123456789abcdef")) }
        7 => { lit("<div>efghijklmnopqrstuvwxyzé12345</div>"); end(b, div!("efghijklmnopqrstuvwxyzé12345")) }
        8 => { lit("<div><b></b><p>k</p><br>fghijklmnop</div>"); end(b, div!(b!(), p!("k"), br!(), "fghijklmnop")) }
        9 => { lit("<p id=\"ghijklmnopqrstuvwéyz012345678\"></p>"); end(b, p!(id = "ghijklmnopqrstuvwéyz012345678")) }
        10 => { lit("<p>hijklmnopqrstu"); esc(x); lit("<b>hijklmnopqrstuv</b></p>"); end(b, p!("hijklmnopqrstu", x, b!("hijklmnopqrstuv"))) }
        11 => { lit("ijklmnopqrstuvwxyz012345世789abcdefghijklmn"); end(b, frag!("ijklmnopqrstuvwxyz012345世789abcdefghijklmn")) }
        12 => { lit("<div>jklmnopqrstuvwxyz0123456789abcdefg</div>"); end(b, div!("jklmnopqrstuvwxyz0123456789abcdefg")) }
        13 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i>kl</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), "kl")) }
        14 => { lit("<p id=\"lmnopqrstuvwxyz0123456789abcdefghij\"></p>"); end(b, p!(id = "lmnopqrstuvwxyz0123456789abcdefghij")) }
        15 => { lit("<p>mnopqrstuvwxyz012"); esc(x); lit("<b>mnopqrstuvwxyz012</b></p>"); end(b, p!("mnopqrstuvwxyz012", x, b!("mnopqrstuvwxyz012"))) }
        16 => { lit("nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz"); end(b, frag!("nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz")) }
        17 => { lit("<div>opqrstuvwxyz0123456789abcdefghijklmnopq</div>"); end(b, div!("opqrstuvwxyz0123456789abcdefghijklmnopq")) }
        18 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b></div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!())) }
        19 => { lit("<p id=\"qrstuvwxyz0123456789abcdefghijklmnopqrst\"></p>"); end(b, p!(id = "qrstuvwxyz0123456789abcdefghijklmnopqrst")) }
        20 => { lit("<p>rstuvwxyz0123456789"); esc(x); lit("<b>rstuvwx\u{1f600}z01234567</b></p>"); end(b, p!("rstuvwxyz0123456789", x, b!("rstuvwx\u{1f600}z01234567"))) }
        21 => { lit("stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789"); end(b, frag!("stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789")) }
        22 => { lit("<div>tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0</div>"); end(b, div!("tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0")) }
        23 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b>uvwxy</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), "uvwxy")) }
        24 => { lit("<p id=\"vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\"></p>"); end(b, p!(id = "vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123")) }
        25 => { lit("<p>wxyz0123456789abcdefgh"); esc(x); lit("<b>wxyz0123456789abcdefgh</b></p>"); end(b, p!("wxyz0123456789abcdefgh", x, b!("wxyz0123456789abcdefgh"))) }
        26 => { lit("xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij"); end(b, frag!("xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij")) }
        27 => { lit("<div>yz0123456789abcdefghijklmnopqrstuvwxyz0123456789a</div>"); end(b, div!("yz0123456789abcdefghijklmnopqrstuvwxyz0123456789a")) }
        28 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p>z0</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), "z0")) }
        29 => { lit("<p id=\"0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd\"></p>"); end(b, p!(id = "0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd")) }
        30 => { lit("<p>123456789abcdefghijklmno"); esc(x); lit("<b>123456789abcdefghijklmnop</b></p>"); end(b, p!("123456789abcdefghijklmno", x, b!("123456789abcdefghijklmnop"))) }
        31 => { lit("23456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqr"); end(b, frag!("23456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqr")) }
        _ => { lit("<div>3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk</div>"); end(b, div!("3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk")) } } }
    h_14_len02(b) { let x = t(1); match choose(33) { 0 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>456</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "456")) }
        1 => { lit("<p id=\"56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\"></p>"); end(b, p!(id = "56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn")) }
        2 => { lit("<p>6789abcdefghijklmnopqrstuvw"); esc(x); lit("<b>6789abcdefghijklmnopqrstuvw</b></p>"); end(b, p!("6789abcdefghijklmnopqrstuvw", x, b!("6789abcdefghijklmnopqrstuvw"))) }
        3 => { lit("789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123"); end(b, frag!("789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123")) }
        4 => { lit("<div>89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu</div>"); end(b, div!("89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu")) }
        5 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>9abcdefg</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "9abcdefg")) }
        6 => { lit("<p id=\"abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\"></p>"); end(b, p!(id = "abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx")) }
        7 => { lit("<p>bcdefghijklmnopqrstuvwxyz0123"); esc(x); lit("<b>bcdefghijklmnopqrstuvwxyz01234</b></p>"); end(b, p!("bcdefghijklmnopqrstuvwxyz0123", x, b!("bcdefghijklmnopqrstuvwxyz01234"))) }
        8 => { lit("cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd"); end(b, frag!("cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd")) }
        9 => { lit("<div>defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234</div>"); end(b, div!("defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234")) }
        10 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>efghijklmnopq</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "efghijklmnopq")) }
        11 => { lit("<p id=\"fghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz01234\"></p>"); end(b, p!(id = "fghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz01234")) }
        12 => { lit("<p>ghijklmnopqrstuvwxyz0123456789ab"); esc(x); lit("<b>ghijklmnopqrstuvwxyz0123456789ab</b></p>"); end(b, p!("ghijklmnopqrstuvwxyz0123456789ab", x, b!("ghijklmnopqrstuvwxyz0123456789ab"))) }
        13 => { lit("hijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijkl"); end(b, frag!("hijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijkl")) }
        14 => { lit("<div>ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde</div>"); end(b, div!("ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde")) }
        15 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i>jklm</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), "jklm")) }
        16 => { lit("<p id=\"klmnopqrstuvwxyz012世45\u{1f600}789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789\"></p>"); end(b, p!(id = "klmnopqrstuvwxyz012世45\u{1f600}789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789")) }
        17 => { lit("<p>lmnopqrstuvwxyz0123456789abcdefghi"); esc(x); lit("<b>lmnopqrstuvwxyz0123456789abcdefghij</b></p>"); end(b, p!("lmnopqrstuvwxyz0123456789abcdefghi", x, b!("lmnopqrstuvwxyz0123456789abcdefghij"))) }
        18 => { lit("mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdeééhijklmnopqrs"); end(b, frag!("mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdeééhijklmnopqrs")) }
        19 => { lit("<div>nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklm</div>"); end(b, div!("nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklm")) }
        20 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b>op</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), "op")) }
        21 => { lit("<p id=\"pqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\"></p>"); end(b, p!(id = "pqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop")) }
        22 => { lit("<p>qrstuvwxyz0123456789abcdefghijklmnopq"); esc(x); lit("<b>qrstuvwxyz0123456789abcdefghijklmnopq</b></p>"); end(b, p!("qrstuvwxyz0123456789abcdefghijklmnopq", x, b!("qrstuvwxyz0123456789abcdefghijklmnopq"))) }
        23 => { lit("rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567"); end(b, frag!("rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567")) }
        24 => { lit("<div>stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwx</div>"); end(b, div!("stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwx")) }
        25 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b>tuvwxyz</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), "tuvwxyz")) }
        26 => { lit("<p id=\"uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\"></p>"); end(b, p!(id = "uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01")) }
        27 => { lit("<p>vwxyz0123456789abcdefghijklmnopqrstuvwx"); esc(x); lit("<b>vwxyz0123456789abcdefghijklmnopqrstuvwxy</b></p>"); end(b, p!("vwxyz0123456789abcdefghijklmnopqrstuvwx", x, b!("vwxyz0123456789abcdefghijklmnopqrstuvwxy"))) }
        28 => { lit("wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh"); end(b, frag!("wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh")) }
        29 => { lit("<div>xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678</div>"); end(b, div!("xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678")) }
        30 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p>yz01</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), "yz01")) }
        31 => { lit("<p id=\"z01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a\"></p>"); end(b, p!(id = "z01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a")) }
        _ => { lit("<p>0123456789abcdefghijklmnopqrstuvwxyz012345"); esc(x); lit("<b>0123456789abcdefghijklmnopqrstuvwxyz012345</b></p>"); end(b, p!("0123456789abcdefghijklmnopqrstuvwxyz012345", x, b!("0123456789abcdefghijklmnopqrstuvwxyz012345"))) } } }
    h_14_len03(b) { let x = t(1); match choose(33) { 0 => { lit("123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr"); end(b, frag!("123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr")) }
        1 => { lit("<div>23456789abcdefghijkémnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789\u{1f600}bc</div>"); end(b, div!("23456789abcdefghijkémnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789\u{1f600}bc")) }
        2 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>34567</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "34567")) }
        3 => { lit("<p id=\"456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\"></p>"); end(b, p!(id = "456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl")) }
        4 => { lit("<p>56789abcdefghijklmnopqrstuvwxyz0123456789abc"); esc(x); lit("<b>56789abcdefghijklmnopqrstuvwxyz0123456789abcd</b></p>"); end(b, p!("56789abcdefghijklmnopqrstuvwxyz0123456789abc", x, b!("56789abcdefghijklmnopqrstuvwxyz0123456789abcd"))) }
        5 => { lit("6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz"); end(b, frag!("6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz")) }
        6 => { lit("<div>789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789abcdefghijklmnop</div>"); end(b, div!("789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789abcdefghijklmnop")) }
        7 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>89abcdefgh</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "89abcdefgh")) }
        8 => { lit("<p id=\"9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv\"></p>"); end(b, p!(id = "9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv")) }
        9 => { lit("<p>abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk"); esc(x); lit("<b>abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk</b></p>"); end(b, p!("abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk", x, b!("abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk"))) }
        10 => { lit("bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab"); end(b, frag!("bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab")) }
        11 => { lit("<div>cde世ghijklmnopqrstuv世xyz012345678\u{1f600}abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv</div>"); end(b, div!("cde世ghijklmnopqrstuv世xyz012345678\u{1f600}abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv")) }
        12 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i>d</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), "d")) }
        13 => { lit("<p id=\"efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123\"></p>"); end(b, p!(id = "efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123")) }
        14 => { lit("<p>fghijklmn世pqrstuvwxyz0123456789abcdefghijklmnop"); esc(x); lit("<b>fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs</b></p>"); end(b, p!("fghijklmn世pqrstuvwxyz0123456789abcdefghijklmnop", x, b!("fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs"))) }
        15 => { lit("ghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghij"); end(b, frag!("ghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghij")) }
        16 => { lit("<div>hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789</div>"); end(b, div!("hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789")) }
        17 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i>ijklmn</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), "ijklmn")) }
        18 => { lit("<p id=\"jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef\"></p>"); end(b, p!(id = "jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef")) }
        19 => { lit("<p>klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz"); esc(x); lit("<b>klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz</b></p>"); end(b, p!("klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz", x, b!("klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz"))) }
        20 => { lit("lmnopqrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz0123456789\u{1f600}écdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno"); end(b, frag!("lmnopqrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz0123456789\u{1f600}écdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno")) }
        21 => { lit("<div>mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijkl</div>"); end(b, div!("mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijkl")) }
        22 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b>nopq</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), "nopq")) }
        23 => { lit("<p id=\"opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi\u{1f600}klm\"></p>"); end(b, p!(id = "opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi\u{1f600}klm")) }
        24 => { lit("<p>pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456"); esc(x); lit("<b>pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567</b></p>"); end(b, p!("pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456", x, b!("pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567"))) }
        25 => { lit("qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345"); end(b, frag!("qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345")) }
        26 => { lit("<div>rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw</div>"); end(b, div!("rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw")) }
        27 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p>s</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), "s")) }
        28 => { lit("<p id=\"tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\"></p>"); end(b, p!(id = "tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz")) }
        29 => { lit("<p>uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde"); esc(x); lit("<b>uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde</b></p>"); end(b, p!("uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde", x, b!("uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde"))) }
        30 => { lit("vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef"); end(b, frag!("vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef")) }
        31 => { lit("<div>wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz012345</div>"); end(b, div!("wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz012345")) }
        _ => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p>xyz012</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), "xyz012")) } } }
    h_14_len04(b) { let x = t(1); match choose(33) { 0 => { lit("<p id=\"yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz01234567\"></p>"); end(b, p!(id = "yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz01234567")) }
        1 => { lit("<p>z0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghij"); esc(x); lit("<b>z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm</b></p>"); end(b, p!("z0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghij", x, b!("z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm"))) }
        2 => { lit("012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno"); end(b, frag!("012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno")) }
        3 => { lit("<div>123456789abcdefghijklmnopqrstuvwxyz0123456789abcd\u{1f600}fghijklmnopqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abc</div>"); end(b, div!("123456789abcdefghijklmnopqrstuvwxyz0123456789abcd\u{1f600}fghijklmnopqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abc")) }
        4 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>2345678</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "2345678")) }
        5 => { lit("<p id=\"3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\"></p>"); end(b, p!(id = "3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij")) }
        6 => { lit("<p>456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst"); esc(x); lit("<b>456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqr</b></p>"); end(b, p!("456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst", x, b!("456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqr"))) }
        7 => { lit("56789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx"); end(b, frag!("56789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx")) }
        8 => { lit("<div>6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq</div>"); end(b, div!("6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq")) }
        9 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>789abcdefghi</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "789abcdefghi")) }
        10 => { lit("<p id=\"89abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\"></p>"); end(b, p!(id = "89abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq")) }
        11 => { lit("<p>9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0"); esc(x); lit("<b>9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01</b></p>"); end(b, p!("9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0", x, b!("9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01"))) }
        12 => { lit("abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789"); end(b, frag!("abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789")) }
        13 => { lit("<div>bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0</div>"); end(b, div!("bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0")) }
        14 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i>cde</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), "cde")) }
        15 => { lit("<p id=\"defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\"></p>"); end(b, p!(id = "defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123")) }
        16 => { lit("<p>efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678"); esc(x); lit("<b>efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678</b></p>"); end(b, p!("efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678", x, b!("efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678"))) }
        17 => { lit("fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij"); end(b, frag!("fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij")) }
        18 => { lit("<div>ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678</div>"); end(b, div!("ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678")) }
        19 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b>h</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), "h")) }
        20 => { lit("<p id=\"ijklmnopqrstuvwxyz0123456789abcdefghijklmno世qr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789\"></p>"); end(b, p!(id = "ijklmnopqrstuvwxyz0123456789abcdefghijklmno世qr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789")) }
        21 => { lit("<p>jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef"); esc(x); lit("<b>jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg</b></p>"); end(b, p!("jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef", x, b!("jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg"))) }
        22 => { lit("klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst"); end(b, frag!("klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst")) }
        23 => { lit("<div>lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi</div>"); end(b, div!("lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi")) }
        24 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b>mnopqr</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), "mnopqr")) }
        25 => { lit("<p id=\"nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijk\"></p>"); end(b, p!(id = "nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijk")) }
        26 => { lit("<p>opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijk"); esc(x); lit("<b>opqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijk</b></p>"); end(b, p!("opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijk", x, b!("opqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijk"))) }
        27 => { lit("pqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01"); end(b, frag!("pqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01")) }
        28 => { lit("<div>qrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr</div>"); end(b, div!("qrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr")) }
        29 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p>rst</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), "rst")) }
        30 => { lit("<p id=\"stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstu\"></p>"); end(b, p!(id = "stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstu")) }
        31 => { lit("<p>tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu"); esc(x); lit("<b>tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv</b></p>"); end(b, p!("tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu", x, b!("tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv"))) }
        _ => { lit("uvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678"); end(b, frag!("uvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678")) } } }
    h_14_len05(b) { let x = t(1); match choose(33) { 0 => { lit("<div>vwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01</div>"); end(b, div!("vwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01")) }
        1 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>wxyz</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "wxyz")) }
        2 => { lit("<p id=\"xyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a世cdefghi世klmno\u{1f600}qrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuv\"></p>"); end(b, p!(id = "xyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a世cdefghi世klmno\u{1f600}qrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuv")) }
        3 => { lit("<p>yz0123456789abcdeféhijklmnopqrstuvwxyz0123456789a\u{1f600}cdefghijklmnopqrstuvwxy"); esc(x); lit("<b>yé0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01</b></p>"); end(b, p!("yz0123456789abcdeféhijklmnopqrstuvwxyz0123456789a\u{1f600}cdefghijklmnopqrstuvwxy", x, b!("yé0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01"))) }
        4 => { lit("z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn"); end(b, frag!("z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn")) }
        5 => { lit("<div>0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789ab</div>"); end(b, div!("0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789ab")) }
        6 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>123456789</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "123456789")) }
        7 => { lit("<p id=\"23456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz012345世789abcd\"></p>"); end(b, p!(id = "23456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz012345世789abcd")) }
        8 => { lit("<p>3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789"); esc(x); lit("<b>3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a</b></p>"); end(b, p!("3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789", x, b!("3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a"))) }
        9 => { lit("456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvw"); end(b, frag!("456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvw")) }
        10 => { lit("<div>56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno</div>"); end(b, div!("56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno")) }
        11 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i></div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"))) }
        12 => { lit("<p id=\"789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\"></p>"); end(b, p!(id = "789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr")) }
        13 => { lit("<p>89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh"); esc(x); lit("<b>89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcde</b></p>"); end(b, p!("89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh", x, b!("89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcde"))) }
        14 => { lit("9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz01234"); end(b, frag!("9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz01234")) }
        15 => { lit("<div>abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst世vw</div>"); end(b, div!("abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst世vw")) }
        16 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i>bcdef</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), "bcdef")) }
        17 => { lit("<p id=\"cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\"></p>"); end(b, p!(id = "cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01")) }
        18 => { lit("<p>defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno"); esc(x); lit("<b>defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop</b></p>"); end(b, p!("defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno", x, b!("defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop"))) }
        19 => { lit("efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abc"); end(b, frag!("efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abc")) }
        20 => { lit("<div>fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz012345</div>"); end(b, div!("fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz012345")) }
        21 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b>ghi</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), "ghi")) }
        22 => { lit("<p id=\"hijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\"></p>"); end(b, p!(id = "hijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567")) }
        23 => { lit("<p>ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw"); esc(x); lit("<b>ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw</b></p>"); end(b, p!("ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw", x, b!("ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw"))) }
        24 => { lit("jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz01é3456789abcdefghijk"); end(b, frag!("jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz01é3456789abcdefghijk")) }
        25 => { lit("<div>klmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd</div>"); end(b, div!("klmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd")) }
        26 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p></div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"))) }
        27 => { lit("<p id=\"mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\"></p>"); end(b, p!(id = "mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl")) }
        28 => { lit("<p>nopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0"); esc(x); lit("<b>nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234</b></p>"); end(b, p!("nopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0", x, b!("nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234"))) }
        29 => { lit("opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz"); end(b, frag!("opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz")) }
        30 => { lit("<div>pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnop</div>"); end(b, div!("pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnop")) }
        31 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p>qrstu</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), "qrstu")) }
        _ => { lit("<p id=\"rstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopq\u{1f600}stuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\"></p>"); end(b, p!(id = "rstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopq\u{1f600}stuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl")) } } }
    h_14_len06(b) { let x = t(1); match choose(33) { 0 => { lit("<p>stuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a"); esc(x); lit("<b>stuvwxyz0123456789abcdeé世hijklmnopqrstuvwxyé0123456789abcde世ghijklmnopqrstuvwxyz012345</b></p>"); end(b, p!("stuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a", x, b!("stuvwxyz0123456789abcdeé世hijklmnopqrstuvwxyé0123456789abcde世ghijklmnopqrstuvwxyz012345"))) }
        1 => { lit("tuvwxyz0123456789abcde世ghijklmnop\u{1f600}rstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a\u{1f600}cdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0"); end(b, frag!("tuvwxyz0123456789abcde世ghijklmnop\u{1f600}rstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a\u{1f600}cdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0")) }
        2 => { lit("<div>uvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0</div>"); end(b, div!("uvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0")) }
        3 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>vwxyz0</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "vwxyz0")) }
        4 => { lit("<p id=\"wxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\"></p>"); end(b, p!(id = "wxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012")) }
        5 => { lit("<p>xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi"); esc(x); lit("<b>xyz0123456789abcdefghijklmnopqrstuvéxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh</b></p>"); end(b, p!("xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi", x, b!("xyz0123456789abcdefghijklmnopqrstuvéxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh"))) }
        6 => { lit("yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv世世yz012345世789abcdef"); end(b, frag!("yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv世世yz012345世789abcdef")) }
        7 => { lit("<div>z0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678</div>"); end(b, div!("z0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678")) }
        8 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>0123456789a</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "0123456789a")) }
        9 => { lit("<p id=\"123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd\"></p>"); end(b, p!(id = "123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd")) }
        10 => { lit("<p>23456789abcdefghijklmnopqrstuvwxyz0123456789\u{1f600}bcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijk"); esc(x); lit("<b>23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123é56789abcdefghijklmn</b></p>"); end(b, p!("23456789abcdefghijklmnopqrstuvwxyz0123456789\u{1f600}bcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijk", x, b!("23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123é56789abcdefghijklmn"))) }
        11 => { lit("3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst"); end(b, frag!("3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst")) }
        12 => { lit("<div>456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcde\u{1f600}gh</div>"); end(b, div!("456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcde\u{1f600}gh")) }
        13 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i>56</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), "56")) }
        14 => { lit("<p id=\"6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxéz0123456789abcéefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\"></p>"); end(b, p!(id = "6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxéz0123456789abcéefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk")) }
        15 => { lit("<p>789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx"); esc(x); lit("<b>789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy</b></p>"); end(b, p!("789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx", x, b!("789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy"))) }
        16 => { lit("89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345"); end(b, frag!("89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345")) }
        17 => { lit("<div>9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwéyz0123456789abcdefghijklmnopqr</div>"); end(b, div!("9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwéyz0123456789abcdefghijklmnopqr")) }
        18 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b></div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!())) }
        19 => { lit("<p id=\"bcdefghijklénopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abc世efghijklmnopqr\"></p>"); end(b, p!(id = "bcdefghijklénopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abc世efghijklmnopqr")) }
        20 => { lit("<p>cdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0"); esc(x); lit("<b>cdefghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234</b></p>"); end(b, p!("cdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0", x, b!("cdefghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234"))) }
        21 => { lit("defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc"); end(b, frag!("defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc")) }
        22 => { lit("<div>efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456</div>"); end(b, div!("efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456")) }
        23 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b>fghij</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), "fghij")) }
        24 => { lit("<p id=\"ghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\"></p>"); end(b, p!(id = "ghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345")) }
        25 => { lit("<p>hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789a"); esc(x); lit("<b>hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd</b></p>"); end(b, p!("hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789a", x, b!("hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd"))) }
        26 => { lit("ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijk"); end(b, frag!("ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijk")) }
        27 => { lit("<div>jklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789世bcd世fghéjklmnopqrstuvwxyz012345678</div>"); end(b, div!("jklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789世bcd世fghéjklmnopqrstuvwxyz012345678")) }
        28 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p>kl</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), "kl")) }
        29 => { lit("<p id=\"lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi\u{1f600}klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcde\"></p>"); end(b, p!(id = "lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi\u{1f600}klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcde")) }
        30 => { lit("<p>mnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij"); esc(x); lit("<b>mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefgh</b></p>"); end(b, p!("mnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij", x, b!("mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefgh"))) }
        31 => { lit("nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz012世4世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst"); end(b, frag!("nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz012世4世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst")) }
        _ => { lit("<div>opqrstuvwxyz0123456789abcdefghij世lmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn</div>"); end(b, div!("opqrstuvwxyz0123456789abcdefghij世lmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn")) } } }
    h_14_len07(b) { let x = t(1); match choose(33) { 0 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>pqr</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "pqr")) }
        1 => { lit("<p id=\"qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst\"></p>"); end(b, p!(id = "qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst")) }
        2 => { lit("<p>世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcdefghijklmn"); esc(x); lit("<b>rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs</b></p>"); end(b, p!("世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcdefghijklmn", x, b!("rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs"))) }
        3 => { lit("stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345"); end(b, frag!("stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345")) }
        4 => { lit("<div>tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyé0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw</div>"); end(b, div!("tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyé0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw")) }
        5 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>uvwxyz01</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "uvwxyz01")) }
        6 => { lit("<p id=\"vwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0\"></p>"); end(b, p!(id = "vwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0")) }
        7 => { lit("<p>wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrstuvw"); esc(x); lit("<b>wxyz0123456789世bcdefghijklmnopqrétuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu</b></p>"); end(b, p!("wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrstuvw", x, b!("wxyz0123456789世bcdefghijklmnopqrétuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu"))) }
        8 => { lit("xyz0123456789abcdefghijklmnopqrstuvwxyz01234\u{1f600}6789abcdefghijklmnopqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef"); end(b, frag!("xyz0123456789abcdefghijklmnopqrstuvwxyz01234\u{1f600}6789abcdefghijklmnopqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef")) }
        9 => { lit("<div>yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst世vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678</div>"); end(b, div!("yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst世vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678")) }
        10 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>z0123456789ab</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "z0123456789ab")) }
        11 => { lit("<p id=\"012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\"></p>"); end(b, p!(id = "012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345")) }
        12 => { lit("<p>123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz012345"); esc(x); lit("<b>123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567</b></p>"); end(b, p!("123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz012345", x, b!("123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567"))) }
        13 => { lit("23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}p"); end(b, frag!("23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}p")) }
        14 => { lit("<div>3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk</div>"); end(b, div!("3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk")) }
        15 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i>4567</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), "4567")) }
        16 => { lit("<p id=\"56789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghij\"></p>"); end(b, p!(id = "56789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghij")) }
        17 => { lit("<p>6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde"); esc(x); lit("<b>6789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz012345678</b></p>"); end(b, p!("6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde", x, b!("6789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz012345678"))) }
        18 => { lit("789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz"); end(b, frag!("789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz")) }
        19 => { lit("<div>89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi\u{1f600}klmnopqrstuvwxyz0123456789abcdefghijklm</div>"); end(b, div!("89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi\u{1f600}klmnopqrstuvwxyz0123456789abcdefghijklm")) }
        20 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b>9a</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), "9a")) }
        21 => { lit("<p id=\"abcdééghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz012345678éabcdefghijklmnopqrs\"></p>"); end(b, p!(id = "abcdééghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz012345678éabcdefghijklmnopqrs")) }
        22 => { lit("<p>bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl"); esc(x); lit("<b>bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxéz0123456789abcdefghijk</b></p>"); end(b, p!("bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl", x, b!("bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxéz0123456789abcdefghijk"))) }
        23 => { lit("cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc"); end(b, frag!("cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc")) }
        24 => { lit("<div>世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuv世xyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv</div>"); end(b, div!("世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuv世xyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv")) }
        25 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b>efghijk</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), "efghijk")) }
        26 => { lit("<p id=\"fghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\"></p>"); end(b, p!(id = "fghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01")) }
        27 => { lit("<p>ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst"); esc(x); lit("<b>ghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs</b></p>"); end(b, p!("ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst", x, b!("ghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs"))) }
        28 => { lit("hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}4567世9abcdefghijklmnopqrstuvwxyz0123456789abcéefg"); end(b, frag!("hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}4567世9abcdefghijklmnopqrstuvwxyz0123456789abcéefg")) }
        29 => { lit("<div>ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789aécdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd</div>"); end(b, div!("ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789aécdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd")) }
        30 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p>jklm</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), "jklm")) }
        31 => { lit("<p id=\"klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuv\u{1f600}xyz0123456789ab\"></p>"); end(b, p!(id = "klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuv\u{1f600}xyz0123456789ab")) }
        _ => { lit("<p>lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0"); esc(x); lit("<b>lmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy</b></p>"); end(b, p!("lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0", x, b!("lmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy"))) } } }
    h_14_len08(b) { let x = t(1); match choose(33) { 0 => { lit("mnopqrs\u{1f600}uvwxyz0123世56789abcdefghijklmnopqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno"); end(b, frag!("mnopqrs\u{1f600}uvwxyz0123世56789abcdefghijklmnopqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno")) }
        1 => { lit("<div>nopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh</div>"); end(b, div!("nopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh")) }
        2 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>opqrs</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "opqrs")) }
        3 => { lit("<p id=\"pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\"></p>"); end(b, p!(id = "pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn")) }
        4 => { lit("<p>qrstuvwxyz01世3456789abcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345"); esc(x); lit("<b>qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678</b></p>"); end(b, p!("qrstuvwxyz01世3456789abcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345", x, b!("qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678"))) }
        5 => { lit("rstuvwxyz0123456789abcdefghijklmno世qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0"); end(b, frag!("rstuvwxyz0123456789abcdefghijklmno世qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0")) }
        6 => { lit("<div>stuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012é456789abcdefghijklm\u{1f600}opq</div>"); end(b, div!("stuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012é456789abcdefghijklm\u{1f600}opq")) }
        7 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>tuvwxyz012</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "tuvwxyz012")) }
        8 => { lit("<p id=\"uvwxyzé12345\u{1f600}789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789aécdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\"></p>"); end(b, p!(id = "uvwxyzé12345\u{1f600}789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789aécdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs")) }
        9 => { lit("<p>vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz01234é6789abcd"); esc(x); lit("<b>vwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab</b></p>"); end(b, p!("vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz01234é6789abcd", x, b!("vwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab"))) }
        10 => { lit("wx世z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789abc"); end(b, frag!("wx世z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789abc")) }
        11 => { lit("<div>xyz0123456789abc\u{1f600}efghijklmnopqrs\u{1f600}u\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv</div>"); end(b, div!("xyz0123456789abc\u{1f600}efghijklmnopqrs\u{1f600}u\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv")) }
        12 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i>y</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), "y")) }
        13 => { lit("<p id=\"z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456\"></p>"); end(b, p!(id = "z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456")) }
        14 => { lit("<p>0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl"); esc(x); lit("<b>0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn</b></p>"); end(b, p!("0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl", x, b!("0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn"))) }
        15 => { lit("123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmno"); end(b, frag!("123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmno")) }
        16 => { lit("<div>23456789abcdefghéjklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789</div>"); end(b, div!("23456789abcdefghéjklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789")) }
        17 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i>345678</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), "345678")) }
        18 => { lit("<p id=\"456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdefghijklmnopq世stuv\u{1f600}xyz01234\u{1f600}6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\"></p>"); end(b, p!(id = "456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdefghijklmnopq世stuv\u{1f600}xyz01234\u{1f600}6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456")) }
        19 => { lit("<p>56789abcdefghijklmnopqr\u{1f600}éuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq"); esc(x); lit("<b>56789abcdefghijklmnopqrstuvwxyz012é456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu</b></p>"); end(b, p!("56789abcdefghijklmnopqr\u{1f600}éuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq", x, b!("56789abcdefghijklmnopqrstuvwxyz012é456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu"))) }
        20 => { lit("6789abcdefghijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世3456789abcdefghijklmnopqr世tu"); end(b, frag!("6789abcdefghijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世3456789abcdefghijklmnopqr世tu")) }
        21 => { lit("<div>789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012é456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz0123456789abcdefghijklmno</div>"); end(b, div!("789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012é456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz0123456789abcdefghijklmno")) }
        22 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b>89ab</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), "89ab")) }
        23 => { lit("<p id=\"9abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst\"></p>"); end(b, p!(id = "9abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst")) }
        24 => { lit("<p>abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz01"); esc(x); lit("<b>abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxy</b></p>"); end(b, p!("abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz01", x, b!("abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxy"))) }
        25 => { lit("bcdefghijklmnopqrstuvwx世z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世234567"); end(b, frag!("bcdefghijklmnopqrstuvwx世z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世234567")) }
        26 => { lit("<div>cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz</div>"); end(b, div!("cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz")) }
        27 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p>d</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), "d")) }
        28 => { lit("<p id=\"efghijklmnopqrstuv世xyz012345世789a世cdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst\"></p>"); end(b, p!(id = "efghijklmnopqrstuv世xyz012345世789a世cdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst")) }
        29 => { lit("<p>fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789\u{1f600}bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456"); esc(x); lit("<b>fghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234</b></p>"); end(b, p!("fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789\u{1f600}bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456", x, b!("fghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234"))) }
        30 => { lit("ghijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde"); end(b, frag!("ghijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde")) }
        31 => { lit("<div>hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc</div>"); end(b, div!("hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc")) }
        _ => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p>ijklmn</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), "ijklmn")) } } }
    h_14_len09(b) { let x = t(1); match choose(33) { 0 => { lit("<p id=\"jklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstu世wxyz0123456789abcdefghijklmnopqrstuvwxéz0123\u{1f600}56789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz0123456789\u{1f600}bcdefghijklmnopqrstuvwxyz\"></p>"); end(b, p!(id = "jklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstu世wxyz0123456789abcdefghijklmnopqrstuvwxéz0123\u{1f600}56789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz0123456789\u{1f600}bcdefghijklmnopqrstuvwxyz")) }
        1 => { lit("<p>klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcd"); esc(x); lit("<b>klmnopqrstuvwxyz0123456789abcdefghi\u{1f600}klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde</b></p>"); end(b, p!("klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcd", x, b!("klmnopqrstuvwxyz0123456789abcdefghi\u{1f600}klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde"))) }
        2 => { lit("lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr"); end(b, frag!("lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr")) }
        3 => { lit("<div>mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst世vwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcde</div>"); end(b, div!("mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst世vwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcde")) }
        4 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>nopqrst</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "nopqrst")) }
        5 => { lit("<p id=\"opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789a\u{1f600}c世efghijklmnopqrstuvwxyz0123456789abcdefg\"></p>"); end(b, p!(id = "opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789a\u{1f600}c世efghijklmnopqrstuvwxyz0123456789abcdefg")) }
        6 => { lit("<p>pqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm"); esc(x); lit("<b>pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk</b></p>"); end(b, p!("pqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm", x, b!("pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk"))) }
        7 => { lit("qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234"); end(b, frag!("qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234")) }
        8 => { lit("<div>rstuvwxyz0123\u{1f600}56789ab世defghijklmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678\u{1f600}abcdefgh</div>"); end(b, div!("rstuvwxyz0123\u{1f600}56789ab世defghijklmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678\u{1f600}abcdefgh")) }
        9 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>stuvwxyz0123</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "stuvwxyz0123")) }
        10 => { lit("<p id=\"tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789aécdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\"></p>"); end(b, p!(id = "tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789aécdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw")) }
        11 => { lit("<p>uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw"); esc(x); lit("<b>uvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst</b></p>"); end(b, p!("uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw", x, b!("uvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst"))) }
        12 => { lit("vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567é9abc"); end(b, frag!("vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567é9abc")) }
        13 => { lit("<div>wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123</div>"); end(b, div!("wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123")) }
        14 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i>xyz</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), "xyz")) }
        15 => { lit("<p id=\"yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz01234\"></p>"); end(b, p!(id = "yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz01234")) }
        16 => { lit("<p>z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxy"); esc(x); lit("<b>z0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0</b></p>"); end(b, p!("z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxy", x, b!("z0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0"))) }
        17 => { lit("0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij"); end(b, frag!("0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij")) }
        18 => { lit("<div>123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef</div>"); end(b, div!("123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef")) }
        19 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b>2</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), "2")) }
        20 => { lit("<p id=\"3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef\"></p>"); end(b, p!(id = "3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef")) }
        21 => { lit("<p>456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}45678"); esc(x); lit("<b>4世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz012345678</b></p>"); end(b, p!("456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}45678", x, b!("4世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz012345678"))) }
        22 => { lit("5678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy"); end(b, frag!("5678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy")) }
        23 => { lit("<div>6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn</div>"); end(b, div!("6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn")) }
        24 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b>789abc</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), "789abc")) }
        25 => { lit("<p id=\"89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\"></p>"); end(b, p!(id = "89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno")) }
        26 => { lit("<p>9abcdefghijélmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789世bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc"); esc(x); lit("<b>9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij</b></p>"); end(b, p!("9abcdefghijélmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789世bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc", x, b!("9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij"))) }
        27 => { lit("abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012"); end(b, frag!("abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012")) }
        28 => { lit("<div>bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世éefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw</div>"); end(b, div!("bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世éefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw")) }
        29 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p>cde</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), "cde")) }
        30 => { lit("<p id=\"defghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvw\"></p>"); end(b, p!(id = "defghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvw")) }
        31 => { lit("<p>efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop"); esc(x); lit("<b>efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq</b></p>"); end(b, p!("efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop", x, b!("efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq"))) }
        _ => { lit("fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdef"); end(b, frag!("fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdef")) } } }
    h_14_len10(b) { let x = t(1); match choose(33) { 0 => { lit("<p>xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0"); esc(x); lit("<b>xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuv</b></p>"); end(b, p!("xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0", x, b!("xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuv"))) }
        1 => { lit("yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyé0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefg"); end(b, frag!("yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyé0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefg")) }
        2 => { lit("<div>z0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789世bcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123</div>"); end(b, div!("z0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789世bcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123")) }
        3 => { lit("<div>9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv</div>"); end(b, div!("9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv")) }
        4 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>abc</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "abc")) }
        5 => { lit("<p id=\"bcdefghijklmnopqrstuvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstu\"></p>"); end(b, p!(id = "bcdefghijklmnopqrstuvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstu")) }
        6 => { lit("<p>cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk"); esc(x); lit("<b>cdefghijklmnopqrstuvwxyz01234567世9a\u{1f600}cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh</b></p>"); end(b, p!("cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk", x, b!("cdefghijklmnopqrstuvwxyz01234567世9a\u{1f600}cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh"))) }
        7 => { lit("defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyé0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789"); end(b, frag!("defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyé0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789")) }
        8 => { lit("<div>efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz01</div>"); end(b, div!("efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz01")) }
        9 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>fghijklm</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "fghijklm")) }
        10 => { lit("<p id=\"g世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\"></p>"); end(b, p!(id = "g世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012")) }
        11 => { lit("<p>世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs"); esc(x); lit("<b>hi\u{1f600}klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop</b></p>"); end(b, p!("世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs", x, b!("hi\u{1f600}klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop"))) }
        12 => { lit("ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijkl"); end(b, frag!("ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijkl")) }
        13 => { lit("<p id=\"pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcdef\u{1f600}hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcde\"></p>"); end(b, p!(id = "pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcdef\u{1f600}hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcde")) }
        14 => { lit("<p>qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789\u{1f600}bcdefghijklmnopqrstuvwxyz0123456789abcdefghi"); esc(x); lit("<b>qrstuvwxyz012345678éabcdefghijélmnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm</b></p>"); end(b, p!("qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789\u{1f600}bcdefghijklmnopqrstuvwxyz0123456789abcdefghi", x, b!("qrstuvwxyz012345678éabcdefghijélmnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm"))) }
        15 => { lit("rstuvwxyz0123456é89abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwéyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nop"); end(b, frag!("rstuvwxyz0123456é89abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwéyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nop")) }
        16 => { lit("<div>123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a\u{1f600}cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567</div>"); end(b, div!("123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a\u{1f600}cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567")) }
        17 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>2345</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "2345")) }
        18 => { lit("<p id=\"é456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\"></p>"); end(b, p!(id = "é456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab")) }
        19 => { lit("<p>456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqr"); esc(x); lit("<b>456789abcdefghijklmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqr</b></p>"); end(b, p!("456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqr", x, b!("456789abcdefghijklmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqr"))) }
        20 => { lit("56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno世qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv"); end(b, frag!("56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno世qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv")) }
        21 => { lit("<div>6\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef</div>"); end(b, div!("6\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef")) }
        22 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>789abcdef</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "789abcdef")) }
        23 => { lit("<p id=\"89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\"></p>"); end(b, p!(id = "89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop")) }
        24 => { lit("<p>9abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrst"); esc(x); lit("<b>9abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst</b></p>"); end(b, p!("9abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrst", x, b!("9abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst"))) }
        25 => { lit("abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz012世456789abcde世ghijklmnopqrstuvwxyz0123456789\u{1f600}bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx"); end(b, frag!("abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz012世456789abcde世ghijklmnopqrstuvwxyz0123456789\u{1f600}bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx")) }
        26 => { lit("<p id=\"defghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\"></p>"); end(b, p!(id = "defghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw")) }
        27 => { lit("<p>efghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123"); esc(x); lit("<b>efghijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234</b></p>"); end(b, p!("efghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123", x, b!("efghijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234"))) }
        28 => { lit("fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi"); end(b, frag!("fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi")) }
        29 => { lit("<div>ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123</div>"); end(b, div!("ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123")) }
        30 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i>hijkl</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), "hijkl")) }
        31 => { lit("<p id=\"ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmn\u{1f600}pqrstuvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwx\"></p>"); end(b, p!(id = "ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmn\u{1f600}pqrstuvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwx")) }
        _ => { lit("<p>jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc"); esc(x); lit("<b>jklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz01234567</b></p>"); end(b, p!("jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc", x, b!("jklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz01234567"))) } } }
    h_14_len11(b) { let x = t(1); match choose(33) { 0 => { lit("klmnopqrséuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno"); end(b, frag!("klmnopqrséuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno")) }
        1 => { lit("<div>lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij世lmnopqrstuvwxyz0123456789abcdefghijklmnopqrst世vwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\u{1f600}56789abcde世ghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456</div>"); end(b, div!("lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij世lmnopqrstuvwxyz0123456789abcdefghijklmnopqrst世vwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\u{1f600}56789abcde世ghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456")) }
        2 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b>mno</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), "mno")) }
        3 => { lit("xéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab"); end(b, frag!("xéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab")) }
        4 => { lit("<div>yz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuv\u{1f600}xy\u{1f600}0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyé0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw</div>"); end(b, div!("yz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuv\u{1f600}xy\u{1f600}0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyé0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw")) }
        5 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>z012345678</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "z012345678")) }
        6 => { lit("123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123世56789abcdefghijklmnopqrs世uvwxyz0123456789a\u{1f600}cdefghijklmnopqrstu世wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef\u{1f600}hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456"); end(b, frag!("123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123世56789abcdefghijklmnopqrs世uvwxyz0123456789a\u{1f600}cdefghijklmnopqrstu世wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef\u{1f600}hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456")) }
        7 => { lit("<div>23456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789世bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456</div>"); end(b, div!("23456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789世bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456")) }
        8 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i>345</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), "345")) }
        9 => { lit("pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs"); end(b, frag!("pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs")) }
        10 => { lit("<div>qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123世56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef\u{1f600}hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678\u{1f600}abcdefgh</div>"); end(b, div!("qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123世56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef\u{1f600}hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678\u{1f600}abcdefgh")) }
        11 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>éstuvwxyz0</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "éstuvwxyz0")) }
        12 => { lit("ijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrst世vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012é456789"); end(b, frag!("ijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrst世vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012é456789")) }
        13 => { lit("<div>jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012</div>"); end(b, div!("jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012")) }
        14 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>klmnopqrst</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "klmnopqrst")) }
        15 => { lit("<p id=\"lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789\"></p>"); end(b, p!(id = "lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789")) }
        16 => { lit("<p>mnopqrstuvwxyz0123456789世bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}népqrstuvwxyz0123456789abcdefghijklm世\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl"); esc(x); lit("<b>mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstuv</b></p>"); end(b, p!("mnopqrstuvwxyz0123456789世bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}népqrstuvwxyz0123456789abcdefghijklm世\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl", x, b!("mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstuv"))) }
        17 => { lit("nopqrstuvwxyz01世3456789abcdefg世ijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrs世uvwxyz0123456789abcdefghijklmnopqrstuvwx世z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdéfghijklm世opqrstuvwxyz0123456789"); end(b, frag!("nopqrstuvwxyz01世3456789abcdefg世ijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrs世uvwxyz0123456789abcdefghijklmnopqrstuvwx世z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdéfghijklm世opqrstuvwxyz0123456789")) }
        18 => { lit("hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg"); end(b, frag!("hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg")) }
        19 => { lit("<div>ijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef\u{1f600}hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123世56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy</div>"); end(b, div!("ijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef\u{1f600}hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123世56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy")) }
        20 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>jklmnopqrstu</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "jklmnopqrstu")) }
        21 => { lit("9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678\u{1f600}abcdefghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqr"); end(b, frag!("9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678\u{1f600}abcdefghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqr")) }
        22 => { lit("<div>abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmno</div>"); end(b, div!("abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmno")) }
        23 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>bcdefghijklmn</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "bcdefghijklmn")) }
        24 => { lit("<div>xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0</div>"); end(b, div!("xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0")) }
        25 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>yz0123456</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "yz0123456")) }
        26 => { lit("<p id=\"z0123456789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh世jklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世3456789abcdefghijklmnopqrstévwxyz0123456789abcdef世hijklmno\"></p>"); end(b, p!(id = "z0123456789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh世jklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世3456789abcdefghijklmnopqrstévwxyz0123456789abcdef世hijklmno")) }
        27 => { lit("<p>0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh"); esc(x); lit("<b>0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefg</b></p>"); end(b, p!("0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh", x, b!("0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefg"))) }
        28 => { lit("123456789abcdefghijklmnopqrséuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世6789abcdefghij世lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab"); end(b, frag!("123456789abcdefghijklmnopqrséuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世6789abcdefghij世lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab")) }
        29 => { lit("<div>23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstu世wxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqr世tuvwxyz0123456789abcdefgh世jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvwx世z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs</div>"); end(b, div!("23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstu世wxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqr世tuvwxyz0123456789abcdefgh世jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvwx世z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs")) }
        30 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i></div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"))) }
        31 => { lit("<p id=\"456789abcdefghijklmnoéqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwéyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcd\"></p>"); end(b, p!(id = "456789abcdefghijklmnoéqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwéyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcd")) }
        _ => { lit("<p>56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi\u{1f600}klmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi"); esc(x); lit("<b>56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyé0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop</b></p>"); end(b, p!("56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi\u{1f600}klmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi", x, b!("56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyé0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop"))) } } }
    h_14_len12(b) { let x = t(1); match choose(33) { 0 => { lit("6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcd世fghijklmnopqrstuvwxyz012é456789abcdefghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl"); end(b, frag!("6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcd世fghijklmnopqrstuvwxyz012é456789abcdefghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl")) }
        1 => { lit("lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789\u{1f600}bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz01234"); end(b, frag!("lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789\u{1f600}bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz01234")) }
        2 => { lit("<div>mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789ab</div>"); end(b, div!("mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789ab")) }
        3 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p>nopqr</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), "nopqr")) }
        4 => { lit("<p id=\"opqrstuvwxyz0123456789abédefghijklmno世qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789ébcdefghijklmno世qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz01世3456789abcdefghijklmnopqrstuvwxyz0é23456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\"></p>"); end(b, p!(id = "opqrstuvwxyz0123456789abédefghijklmno世qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789ébcdefghijklmno世qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz01世3456789abcdefghijklmnopqrstuvwxyz0é23456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy")) }
        5 => { lit("<p>pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrs\u{1f600}uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij世\u{1f600}mnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc"); esc(x); lit("<b>pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyé0123456789abcdefghijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789ab</b></p>"); end(b, p!("pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrs\u{1f600}uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij世\u{1f600}mnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc", x, b!("pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyé0123456789abcdefghijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789ab"))) }
        6 => { lit("qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyzé123456789abcdefghiéklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv"); end(b, frag!("qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyzé123456789abcdefghiéklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv")) }
        7 => { lit("<div>rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij</div>"); end(b, div!("rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij")) }
        8 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>stuvwx</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "stuvwx")) }
        9 => { lit("<p id=\"tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef\u{1f600}hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijk\"></p>"); end(b, p!(id = "tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef\u{1f600}hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijk")) }
        10 => { lit("<p>uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789世bcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqéstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg"); esc(x); lit("<b>uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs</b></p>"); end(b, p!("uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789世bcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqéstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg", x, b!("uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs"))) }
        11 => { lit("tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghi\u{1f600}klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm世épqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a\u{1f600}cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmno"); end(b, frag!("tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghi\u{1f600}klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm世épqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a\u{1f600}cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmno")) }
        12 => { lit("<div>uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrétu世wxyz0123456789abcdefghijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr</div>"); end(b, div!("uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrétu世wxyz0123456789abcdefghijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr")) }
        13 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p>v</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), "v")) }
        14 => { lit("xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst世vwxyz01\u{1f600}3世56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx世z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu"); end(b, frag!("xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst世vwxyz01\u{1f600}3世56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx世z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu")) }
        15 => { lit("<div>yz0123456789abc世世fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwxyz01234\u{1f600}6789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh世jklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789世bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij</div>"); end(b, div!("yz0123456789abc世世fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwxyz01234\u{1f600}6789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh世jklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789世bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij")) }
        16 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i>z0123</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), "z0123")) }
        17 => { lit("<div>xyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklm\u{1f600}opqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd</div>"); end(b, div!("xyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklm\u{1f600}opqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd")) }
        18 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b></div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!())) }
        19 => { lit("<p id=\"z0123456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh世jklmnopqrstuvwxyz0123456789abcdefghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\"></p>"); end(b, p!(id = "z0123456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh世jklmnopqrstuvwxyz0123456789abcdefghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs")) }
        20 => { lit("tuvwxyz0123456789abcdef世hijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijk\u{1f600}mnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz012345678\u{1f600}abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno世qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012"); end(b, frag!("tuvwxyz0123456789abcdef世hijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijk\u{1f600}mnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz012345678\u{1f600}abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno世qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012")) }
        21 => { lit("<div>uvwxyz0123456789abcdeéghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz0123世56789abcdefghijklmnopqrstuvwxyz0123世56789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789世bcdefghijklé\u{1f600}opqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghiéklmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123</div>"); end(b, div!("uvwxyz0123456789abcdeéghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz0123世56789abcdefghijklmnopqrstuvwxyz0123世56789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789世bcdefghijklé\u{1f600}opqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghiéklmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123")) }
        22 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b>vwx</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), "vwx")) }
        23 => { lit("<p>1é3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh世jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678\u{1f600}abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123世56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcéefghijklmnopq世stuvwxyz0123456789abcd\u{1f600}fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm"); esc(x); lit("<b>123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrst世vwxyzé123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123456789aécdefghijklmnop</b></p>"); end(b, p!("1é3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh世jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678\u{1f600}abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123世56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcéefghijklmnopq世stuvwxyz0123456789abcd\u{1f600}fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm", x, b!("123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrst世vwxyzé123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123456789aécdefghijklmnop"))) }
        24 => { lit("23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefgh世jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz01234"); end(b, frag!("23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefgh世jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz01234")) }
        25 => { lit("<div>3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmno世qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456é89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijé\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世世789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89</div>"); end(b, div!("3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmno世qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456é89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijé\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世世789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89")) }
        26 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>456</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "456")) }
        27 => { lit("<p id=\"56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu世\u{1f600}xyz0123456789abcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvéxyz0123456789abcdefghij\u{1f600}lmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\"></p>"); end(b, p!(id = "56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu世\u{1f600}xyz0123456789abcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvéxyz0123456789abcdefghij\u{1f600}lmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde")) }
        28 => { lit("<p>6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世3456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789aécdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01"); esc(x); lit("<b>6789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnop世rstévwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcéefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世34世6789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk</b></p>"); end(b, p!("6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世3456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789aécdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01", x, b!("6789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnop世rstévwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcéefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世34世6789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk"))) }
        29 => { lit("789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghijk\u{1f600}mnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世de世ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789a\u{1f600}cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu世wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvw"); end(b, frag!("789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghijk\u{1f600}mnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世de世ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789a\u{1f600}cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu世wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvw")) }
        30 => { lit("<div>89abcdefghijklmnopqrstu世wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwx世z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012</div>"); end(b, div!("89abcdefghijklmnopqrstu世wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwx世z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012")) }
        31 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>9abcdefg</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "9abcdefg")) }
        _ => { lit("<p id=\"abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyz0123456789abcd\u{1f600}fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz01é3456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcd世fghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\u{1f600}6789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456é89abc\u{1f600}efghijklmnopqr\"></p>"); end(b, p!(id = "abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyz0123456789abcd\u{1f600}fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz01é3456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcd世fghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\u{1f600}6789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456é89abc\u{1f600}efghijklmnopqr")) } } }
    h_14_len13(b) { let x = t(1); match choose(18) { 0 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>lmnop</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "lmnop")) }
        1 => { lit("<p id=\"mnopqrstuvwxyz012é456789abcdefghi\u{1f600}klmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij世lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrséuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz012345é789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012é456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\"></p>"); end(b, p!(id = "mnopqrstuvwxyz012é456789abcdefghi\u{1f600}klmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij世lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrséuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz012345é789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012é456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234")) }
        2 => { lit("<p>nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcd\u{1f600}fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123世56789abcdefghijklmnopqrstuvwxyz012345éé89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab"); esc(x); lit("<b>nopqrstuvwxyz01世3456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz01234</b></p>"); end(b, p!("nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcd\u{1f600}fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123世56789abcdefghijklmnopqrstuvwxyz012345éé89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab", x, b!("nopqrstuvwxyz01世3456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz01234"))) }
        3 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p>xyz012</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), "xyz012")) }
        4 => { lit("<p id=\"yz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh世éklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnééqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu世wxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789a世c世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\u{1f600}6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno世qrstuvwxyz01\u{1f600}3456789abcdefghijkémnopqrs世uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwx世z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0世23456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd\u{1f600}fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmno世qrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\"></p>"); end(b, p!(id = "yz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh世éklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnééqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu世wxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789a世c世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\u{1f600}6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno世qrstuvwxyz01\u{1f600}3456789abcdefghijkémnopqrs世uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwx世z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0世23456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd\u{1f600}fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmno世qrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk")) }
        5 => { lit("<p>z0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789aécdefghij世lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx世z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop"); esc(x); lit("<b>z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféhijklmnopqrstuv\u{1f600}éyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a\u{1f600}cdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456é89aécdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456</b></p>"); end(b, p!("z0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789aécdefghij世lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx世z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop", x, b!("z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféhijklmnopqrstuv\u{1f600}éyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a\u{1f600}cdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456é89aécdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456"))) }
        6 => { lit("0123456789abcdefghijk世mnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\u{1f600}6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd\u{1f600}fghijélmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd\u{1f600}fghijkl世nopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstuvwxyz012345é7é9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89ab\u{1f600}defghijklmnopqrstuvwxyz0123456789aécdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz01"); end(b, frag!("0123456789abcdefghijk世mnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\u{1f600}6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd\u{1f600}fghijélmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd\u{1f600}fghijkl世nopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstuvwxyz012345é7é9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89ab\u{1f600}defghijklmnopqrstuvwxyz0123456789aécdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz01")) }
        7 => { lit("<div>123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh世jklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}ef世hijklmnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu世wxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789aécdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klénopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopérstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcdef\u{1f600}hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno世qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01</div>"); end(b, div!("123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh世jklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}ef世hijklmnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu世wxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789aécdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klénopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopérstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcdef\u{1f600}hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno世qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01")) }
        8 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>2345678</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "2345678")) }
        9 => { lit("<p id=\"3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyé0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz01世3456789ébcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghi世klmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}012345\u{1f600}789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789abc\"></p>"); end(b, p!(id = "3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyé0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz01世3456789ébcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghi世klmnopqrstuvéxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}012345\u{1f600}789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789abc")) }
        10 => { lit("<p>456789\u{1f600}bcdefghijk世mn世pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz0123456789abcdefgh世jklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu世wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é78éabcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefg世ijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij世lmnopqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\u{1f600}6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab"); esc(x); lit("<b>456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789aécdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678\u{1f600}abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789世bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij世lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789aécdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstu世wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789\u{1f600}bcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789aécdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk</b></p>"); end(b, p!("456789\u{1f600}bcdefghijk世mn世pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz0123456789abcdefgh世jklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu世wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é78éabcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefg世ijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij世lmnopqrstuvwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\u{1f600}6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab", x, b!("456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789aécdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678\u{1f600}abcdefghijklmnopqrstuvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789世bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij世lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789aécdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv世xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstu世wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789\u{1f600}bcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789aécdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk"))) }
        11 => { lit("56789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyé0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123456789abcdefghi\u{1f600}klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\u{1f600}6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijélmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789abcd世fghijklmnopqrstuvwxyz\u{1f600}12345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw"); end(b, frag!("56789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyé0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123456789abcdefghi\u{1f600}klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr世tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyzé123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst\u{1f600}vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\u{1f600}6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijélmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789abcd世fghijklmnopqrstuvwxyz\u{1f600}12345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw")) }
        12 => { lit("<div>6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456é89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz世123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789éb世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012é456789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh世jklmnopqrstuvwxyz0123456789世bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdef\u{1f600}hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789\u{1f600}bcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345</div>"); end(b, div!("6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456é89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789abcdefghijklmnopq世stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz世123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789éb世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012é456789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh世jklmnopqrstuvwxyz0123456789世bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abcdefghijklmnopqrstuvwxyz0123456789abcdef\u{1f600}hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789\u{1f600}bcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345")) }
        13 => { lit("<div>6789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0世23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijk世mnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a\u{1f600}cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef\u{1f600}hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu世wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij世lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef\u{1f600}hijklmnop</div>"); end(b, div!("6789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0世23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijk世mnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a\u{1f600}cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef\u{1f600}hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk世mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu世wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij世lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkémnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnoéqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef\u{1f600}hijklmnop")) }
        14 => { lit("<div><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br><i id=\"x\"></i><b></b><p>k</p><br>tuvwxyz012</div>"); end(b, div!(b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), i!(id = "x"), b!(), p!("k"), br!(), "tuvwxyz012")) }
        15 => { lit("<p id=\"uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyé0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst世vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz01234567\u{1f600}9abcdefghijkémnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世世hijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstévwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123世56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxéz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mno世qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvwxyz012\u{1f600}4567世9abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefghij世lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é2345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\"></p>"); end(b, p!(id = "uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyé0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst世vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmn世pqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz01234567\u{1f600}9abcdefghijkémnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde世世hijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0世23456789a世cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopérstévwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv\u{1f600}xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123世56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnépqrstuvwxéz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrséuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mno世qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvwxyz012\u{1f600}4567世9abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefghij世lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é2345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqéstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012世456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345世789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl")) }
        16 => { lit("<p>vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a\u{1f600}cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789\u{1f600}bcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz012345678\u{1f600}abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789a\u{1f600}cdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé12é456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0\u{1f600}23456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvw"); esc(x); lit("<b>vwxyz0123456789abcdefghijklmnopqrstuvéxyz0123456789abcdefgh世jklmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789aécdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678\u{1f600}abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstévwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012é456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl</b></p>"); end(b, p!("vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a\u{1f600}cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz01234é6789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\u{1f600}efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789\u{1f600}bcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijkl世nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz世123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz012345678\u{1f600}abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefghijklmnopqrstuvwxyz0123456789a\u{1f600}cdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abédefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyzé12é456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\u{1f600}tuvwxyz0\u{1f600}23456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmno\u{1f600}qrstuvwxyz0123456789abcdefghijklmnopqrstuvw", x, b!("vwxyz0123456789abcdefghijklmnopqrstuvéxyz0123456789abcdefgh世jklmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuéwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\u{1f600}yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456é89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz01234567\u{1f600}9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghéjklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789aécdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678\u{1f600}abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstévwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\u{1f600}wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyz012\u{1f600}456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij\u{1f600}lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012é456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678世abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklméopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl"))) }
        _ => { lit("<div>mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu世wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789a\u{1f600}cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd\u{1f600}fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789世bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst世vwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz01234567\u{1f600}9ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz012é456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx世z0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrs世uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi\u{1f600}klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij世lmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789世bcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefgh世jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é34世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnoéqrstuvwxyz012345\u{1f600}789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012é456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678éabcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234é6789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh世jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmno世qrstuvwxy\u{1f600}0123456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij</div>"); end(b, div!("mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu世wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567世9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\u{1f600}456789a\u{1f600}cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd\u{1f600}fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwéyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop世rstuvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghiéklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789世bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst世vwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef世hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\u{1f600}mnopqrstuvwxyz01234567\u{1f600}9ébcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\u{1f600}0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstévwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz012é456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx世z0123456789abcdefghi世klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01世3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\u{1f600}defghijklmnopqrs世uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy世0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\u{1f600}3456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi\u{1f600}klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij世lmnopqrstuvwxyz0123456789abcéefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn\u{1f600}pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789世bcdefghijklmnopq\u{1f600}stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\u{1f600}123456789abcdefgh世jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs世uvwxyz01\u{1f600}3456789abcdefghijklmnopqrstuvwxyz0123456789abcde\u{1f600}ghijklmnépqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01é34世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnoéqrstuvwxyz012345\u{1f600}789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz0123456789abc世efghijklmnopqrstuvwxyz012345678éabcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdéfghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd世fghijklmnopqrstuvwxyz0123456789abcdefgh\u{1f600}jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012é456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678éabcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg\u{1f600}ijklmnopqrstuvwxyz01234567é9abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0é23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234é6789abcdefghijklm\u{1f600}opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345\u{1f600}789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\u{1f600}rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw世yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345é789abc世efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh世jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeéghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456世89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abcde世ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123\u{1f600}56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm世opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg世ijklmnopqrstuvwxyz0123456789abcdefghijklmno世qrstuvwxy\u{1f600}0123456789abcdeféhijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgéijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234世6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\u{1f600}z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0\u{1f600}23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab世defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijélmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\u{1f600}nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\u{1f600}89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\u{1f600}uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij")) } } }
}
