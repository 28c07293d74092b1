//! macros almost called like an element (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
struct B9<T>(T);
impl<T: Render> Render for B9<T> { fn render(self, buffer: &mut Buffer) { buffer.push_str("["); self.0.render(buffer); buffer.push_str("]") } }
#[laby] fn near(z: impl Render, #[rest] r: impl Render) -> impl Render { frag!(r, "-", z) }
case! {
    h_18_near00(b) { let x = t(1); let k = bool_(); match choose(121) { 0 => { macro_rules! A { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(A!(x), id = A!(x))) }
        1 => { macro_rules! Abbr { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(Abbr!(x), Abbr![x])) }
        2 => { macro_rules! Address { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(Address!(x), Address!(x))) }
        3 => { macro_rules! Article { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = Article!(x), b = Article![x])) }
        4 => { macro_rules! Aside { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(Aside!(x)), Aside!(x))) }
        5 => { macro_rules! Audio { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = Audio!(x), br!(), (Audio![x]))) }
        6 => { macro_rules! B { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ B!(x) }, span!(id = B!(x)))) }
        7 => { macro_rules! Bdi { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", Bdi!(x), classes!(Bdi![x]))) }
        8 => { macro_rules! Bdo { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(Bdo!(x), z = Bdo!(x))) }
        9 => { macro_rules! Blockquote { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { Blockquote!(x) } else { Blockquote![x] }))) }
        10 => { macro_rules! Body { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(Body!(x), id = Body!(x))) }
        11 => { macro_rules! Button { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(Button!(x), Button![x])) }
        12 => { macro_rules! Canvas { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(Canvas!(x), Canvas!(x))) }
        13 => { macro_rules! Caption { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = Caption!(x), b = Caption![x])) }
        14 => { macro_rules! Cite { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(Cite!(x)), Cite!(x))) }
        15 => { macro_rules! Code { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = Code!(x), br!(), (Code![x]))) }
        16 => { macro_rules! Colgroup { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ Colgroup!(x) }, span!(id = Colgroup!(x)))) }
        17 => { macro_rules! Data { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", Data!(x), classes!(Data![x]))) }
        18 => { macro_rules! Datalist { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(Datalist!(x), z = Datalist!(x))) }
        19 => { macro_rules! Dd { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { Dd!(x) } else { Dd![x] }))) }
        20 => { macro_rules! Del { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(Del!(x), id = Del!(x))) }
        21 => { macro_rules! Details { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(Details!(x), Details![x])) }
        22 => { macro_rules! Dfn { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(Dfn!(x), Dfn!(x))) }
        23 => { macro_rules! Dialog { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = Dialog!(x), b = Dialog![x])) }
        24 => { macro_rules! Div { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(Div!(x)), Div!(x))) }
        25 => { macro_rules! Dl { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = Dl!(x), br!(), (Dl![x]))) }
        26 => { macro_rules! Dt { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ Dt!(x) }, span!(id = Dt!(x)))) }
        27 => { macro_rules! Em { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", Em!(x), classes!(Em![x]))) }
        28 => { macro_rules! Fieldset { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(Fieldset!(x), z = Fieldset!(x))) }
        29 => { macro_rules! Figcaption { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { Figcaption!(x) } else { Figcaption![x] }))) }
        30 => { macro_rules! Figure { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(Figure!(x), id = Figure!(x))) }
        31 => { macro_rules! Footer { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(Footer!(x), Footer![x])) }
        32 => { macro_rules! Form { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(Form!(x), Form!(x))) }
        33 => { macro_rules! H1 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = H1!(x), b = H1![x])) }
        34 => { macro_rules! H2 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(H2!(x)), H2!(x))) }
        35 => { macro_rules! H3 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = H3!(x), br!(), (H3![x]))) }
        36 => { macro_rules! H4 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ H4!(x) }, span!(id = H4!(x)))) }
        37 => { macro_rules! H5 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", H5!(x), classes!(H5![x]))) }
        38 => { macro_rules! H6 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(H6!(x), z = H6!(x))) }
        39 => { macro_rules! Head { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { Head!(x) } else { Head![x] }))) }
        40 => { macro_rules! Header { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(Header!(x), id = Header!(x))) }
        41 => { macro_rules! Hgroup { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(Hgroup!(x), Hgroup![x])) }
        42 => { macro_rules! Html { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(Html!(x), Html!(x))) }
        43 => { macro_rules! I { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = I!(x), b = I![x])) }
        44 => { macro_rules! Iframe { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(Iframe!(x)), Iframe!(x))) }
        45 => { macro_rules! Ins { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = Ins!(x), br!(), (Ins![x]))) }
        46 => { macro_rules! Kbd { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ Kbd!(x) }, span!(id = Kbd!(x)))) }
        47 => { macro_rules! Label { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", Label!(x), classes!(Label![x]))) }
        48 => { macro_rules! Legend { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(Legend!(x), z = Legend!(x))) }
        49 => { macro_rules! Li { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { Li!(x) } else { Li![x] }))) }
        50 => { macro_rules! Main { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(Main!(x), id = Main!(x))) }
        51 => { macro_rules! Map { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(Map!(x), Map![x])) }
        52 => { macro_rules! Mark { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(Mark!(x), Mark!(x))) }
        53 => { macro_rules! Menu { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = Menu!(x), b = Menu![x])) }
        54 => { macro_rules! Menuitem { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(Menuitem!(x)), Menuitem!(x))) }
        55 => { macro_rules! Meter { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = Meter!(x), br!(), (Meter![x]))) }
        56 => { macro_rules! Nav { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ Nav!(x) }, span!(id = Nav!(x)))) }
        57 => { macro_rules! Noscript { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", Noscript!(x), classes!(Noscript![x]))) }
        58 => { macro_rules! Object { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(Object!(x), z = Object!(x))) }
        59 => { macro_rules! Ol { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { Ol!(x) } else { Ol![x] }))) }
        60 => { macro_rules! Optgroup { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(Optgroup!(x), id = Optgroup!(x))) }
        61 => { macro_rules! Option { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(Option!(x), Option![x])) }
        62 => { macro_rules! Output { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(Output!(x), Output!(x))) }
        63 => { macro_rules! P { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = P!(x), b = P![x])) }
        64 => { macro_rules! Picture { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(Picture!(x)), Picture!(x))) }
        65 => { macro_rules! Pre { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = Pre!(x), br!(), (Pre![x]))) }
        66 => { macro_rules! Progress { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ Progress!(x) }, span!(id = Progress!(x)))) }
        67 => { macro_rules! Q { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", Q!(x), classes!(Q![x]))) }
        68 => { macro_rules! Rb { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(Rb!(x), z = Rb!(x))) }
        69 => { macro_rules! Rp { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { Rp!(x) } else { Rp![x] }))) }
        70 => { macro_rules! Rt { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(Rt!(x), id = Rt!(x))) }
        71 => { macro_rules! Rtc { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(Rtc!(x), Rtc![x])) }
        72 => { macro_rules! Ruby { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(Ruby!(x), Ruby!(x))) }
        73 => { macro_rules! S { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = S!(x), b = S![x])) }
        74 => { macro_rules! Samp { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(Samp!(x)), Samp!(x))) }
        75 => { macro_rules! Script { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = Script!(x), br!(), (Script![x]))) }
        76 => { macro_rules! Section { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ Section!(x) }, span!(id = Section!(x)))) }
        77 => { macro_rules! Select { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", Select!(x), classes!(Select![x]))) }
        78 => { macro_rules! Slot { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(Slot!(x), z = Slot!(x))) }
        79 => { macro_rules! Small { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { Small!(x) } else { Small![x] }))) }
        80 => { macro_rules! Span { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(Span!(x), id = Span!(x))) }
        81 => { macro_rules! Strong { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(Strong!(x), Strong![x])) }
        82 => { macro_rules! Style { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(Style!(x), Style!(x))) }
        83 => { macro_rules! Sub { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = Sub!(x), b = Sub![x])) }
        84 => { macro_rules! Summary { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(Summary!(x)), Summary!(x))) }
        85 => { macro_rules! Sup { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = Sup!(x), br!(), (Sup![x]))) }
        86 => { macro_rules! Table { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ Table!(x) }, span!(id = Table!(x)))) }
        87 => { macro_rules! Tbody { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", Tbody!(x), classes!(Tbody![x]))) }
        88 => { macro_rules! Td { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(Td!(x), z = Td!(x))) }
        89 => { macro_rules! Template { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { Template!(x) } else { Template![x] }))) }
        90 => { macro_rules! Textarea { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(Textarea!(x), id = Textarea!(x))) }
        91 => { macro_rules! Tfoot { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(Tfoot!(x), Tfoot![x])) }
        92 => { macro_rules! Th { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(Th!(x), Th!(x))) }
        93 => { macro_rules! Thead { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = Thead!(x), b = Thead![x])) }
        94 => { macro_rules! Time { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(Time!(x)), Time!(x))) }
        95 => { macro_rules! Title { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = Title!(x), br!(), (Title![x]))) }
        96 => { macro_rules! Tr { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ Tr!(x) }, span!(id = Tr!(x)))) }
        97 => { macro_rules! U { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", U!(x), classes!(U![x]))) }
        98 => { macro_rules! Ul { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(Ul!(x), z = Ul!(x))) }
        99 => { macro_rules! Var { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { Var!(x) } else { Var![x] }))) }
        100 => { macro_rules! Video { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(Video!(x), id = Video!(x))) }
        101 => { macro_rules! Area { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(Area!(x), Area![x])) }
        102 => { macro_rules! Base { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(Base!(x), Base!(x))) }
        103 => { macro_rules! Br { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = Br!(x), b = Br![x])) }
        104 => { macro_rules! Col { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(Col!(x)), Col!(x))) }
        105 => { macro_rules! Embed { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = Embed!(x), br!(), (Embed![x]))) }
        106 => { macro_rules! Hr { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ Hr!(x) }, span!(id = Hr!(x)))) }
        107 => { macro_rules! Img { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", Img!(x), classes!(Img![x]))) }
        108 => { macro_rules! Input { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(Input!(x), z = Input!(x))) }
        109 => { macro_rules! Link { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { Link!(x) } else { Link![x] }))) }
        110 => { macro_rules! Meta { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(Meta!(x), id = Meta!(x))) }
        111 => { macro_rules! Param { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(Param!(x), Param![x])) }
        112 => { macro_rules! Source { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(Source!(x), Source!(x))) }
        113 => { macro_rules! Track { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = Track!(x), b = Track![x])) }
        114 => { macro_rules! Wbr { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(Wbr!(x)), Wbr!(x))) }
        115 => { macro_rules! Frag { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = Frag!(x), br!(), (Frag![x]))) }
        116 => { macro_rules! Classes { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ Classes!(x) }, span!(id = Classes!(x)))) }
        117 => { macro_rules! Bool { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", Bool!(x), classes!(Bool![x]))) }
        118 => { macro_rules! Frag_match { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(Frag_match!(x), z = Frag_match!(x))) }
        119 => { macro_rules! Iter { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { Iter!(x) } else { Iter![x] }))) }
        _ => { macro_rules! Raw { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(Raw!(x), id = Raw!(x))) } } }
    h_18_near01(b) { let x = t(1); let k = bool_(); match choose(108) { 0 => { macro_rules! ABBR { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(ABBR!(x), ABBR![x])) }
        1 => { macro_rules! ADDRESS { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = ADDRESS!(x), b = ADDRESS!(x))) }
        2 => { macro_rules! ARTICLE { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(ARTICLE!(x)), ARTICLE![x])) }
        3 => { macro_rules! ASIDE { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = ASIDE!(x), br!(), (ASIDE!(x)))) }
        4 => { macro_rules! AUDIO { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ AUDIO!(x) }, span!(id = AUDIO![x]))) }
        5 => { macro_rules! BDI { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(BDI!(x), z = BDI![x])) }
        6 => { macro_rules! BDO { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { BDO!(x) } else { BDO!(x) }))) }
        7 => { macro_rules! BLOCKQUOTE { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(BLOCKQUOTE!(x), id = BLOCKQUOTE![x])) }
        8 => { macro_rules! BODY { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(BODY!(x), BODY!(x))) }
        9 => { macro_rules! BUTTON { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(BUTTON!(x), BUTTON![x])) }
        10 => { macro_rules! CANVAS { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = CANVAS!(x), b = CANVAS!(x))) }
        11 => { macro_rules! CAPTION { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(CAPTION!(x)), CAPTION![x])) }
        12 => { macro_rules! CITE { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = CITE!(x), br!(), (CITE!(x)))) }
        13 => { macro_rules! CODE { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ CODE!(x) }, span!(id = CODE![x]))) }
        14 => { macro_rules! COLGROUP { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", COLGROUP!(x), classes!(COLGROUP!(x)))) }
        15 => { macro_rules! DATA { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(DATA!(x), z = DATA![x])) }
        16 => { macro_rules! DATALIST { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { DATALIST!(x) } else { DATALIST!(x) }))) }
        17 => { macro_rules! DD { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(DD!(x), id = DD![x])) }
        18 => { macro_rules! DEL { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(DEL!(x), DEL!(x))) }
        19 => { macro_rules! DETAILS { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(DETAILS!(x), DETAILS![x])) }
        20 => { macro_rules! DFN { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = DFN!(x), b = DFN!(x))) }
        21 => { macro_rules! DIALOG { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(DIALOG!(x)), DIALOG![x])) }
        22 => { macro_rules! DIV { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = DIV!(x), br!(), (DIV!(x)))) }
        23 => { macro_rules! DL { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ DL!(x) }, span!(id = DL![x]))) }
        24 => { macro_rules! DT { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", DT!(x), classes!(DT!(x)))) }
        25 => { macro_rules! EM { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(EM!(x), z = EM![x])) }
        26 => { macro_rules! FIELDSET { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { FIELDSET!(x) } else { FIELDSET!(x) }))) }
        27 => { macro_rules! FIGCAPTION { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(FIGCAPTION!(x), id = FIGCAPTION![x])) }
        28 => { macro_rules! FIGURE { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(FIGURE!(x), FIGURE!(x))) }
        29 => { macro_rules! FOOTER { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(FOOTER!(x), FOOTER![x])) }
        30 => { macro_rules! FORM { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = FORM!(x), b = FORM!(x))) }
        31 => { macro_rules! HEAD { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(HEAD!(x), id = HEAD![x])) }
        32 => { macro_rules! HEADER { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(HEADER!(x), HEADER!(x))) }
        33 => { macro_rules! HGROUP { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(HGROUP!(x), HGROUP![x])) }
        34 => { macro_rules! HTML { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = HTML!(x), b = HTML!(x))) }
        35 => { macro_rules! IFRAME { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = IFRAME!(x), br!(), (IFRAME!(x)))) }
        36 => { macro_rules! INS { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ INS!(x) }, span!(id = INS![x]))) }
        37 => { macro_rules! KBD { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", KBD!(x), classes!(KBD!(x)))) }
        38 => { macro_rules! LABEL { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(LABEL!(x), z = LABEL![x])) }
        39 => { macro_rules! LEGEND { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { LEGEND!(x) } else { LEGEND!(x) }))) }
        40 => { macro_rules! LI { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(LI!(x), id = LI![x])) }
        41 => { macro_rules! MAIN { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(MAIN!(x), MAIN!(x))) }
        42 => { macro_rules! MAP { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(MAP!(x), MAP![x])) }
        43 => { macro_rules! MARK { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = MARK!(x), b = MARK!(x))) }
        44 => { macro_rules! MENU { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(MENU!(x)), MENU![x])) }
        45 => { macro_rules! MENUITEM { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = MENUITEM!(x), br!(), (MENUITEM!(x)))) }
        46 => { macro_rules! METER { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ METER!(x) }, span!(id = METER![x]))) }
        47 => { macro_rules! NAV { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", NAV!(x), classes!(NAV!(x)))) }
        48 => { macro_rules! NOSCRIPT { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(NOSCRIPT!(x), z = NOSCRIPT![x])) }
        49 => { macro_rules! OBJECT { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { OBJECT!(x) } else { OBJECT!(x) }))) }
        50 => { macro_rules! OL { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(OL!(x), id = OL![x])) }
        51 => { macro_rules! OPTGROUP { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(OPTGROUP!(x), OPTGROUP!(x))) }
        52 => { macro_rules! OPTION { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(OPTION!(x), OPTION![x])) }
        53 => { macro_rules! OUTPUT { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = OUTPUT!(x), b = OUTPUT!(x))) }
        54 => { macro_rules! PICTURE { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = PICTURE!(x), br!(), (PICTURE!(x)))) }
        55 => { macro_rules! PRE { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ PRE!(x) }, span!(id = PRE![x]))) }
        56 => { macro_rules! PROGRESS { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", PROGRESS!(x), classes!(PROGRESS!(x)))) }
        57 => { macro_rules! RB { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { RB!(x) } else { RB!(x) }))) }
        58 => { macro_rules! RP { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(RP!(x), id = RP![x])) }
        59 => { macro_rules! RT { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(RT!(x), RT!(x))) }
        60 => { macro_rules! RTC { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(RTC!(x), RTC![x])) }
        61 => { macro_rules! RUBY { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = RUBY!(x), b = RUBY!(x))) }
        62 => { macro_rules! SAMP { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = SAMP!(x), br!(), (SAMP!(x)))) }
        63 => { macro_rules! SCRIPT { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ SCRIPT!(x) }, span!(id = SCRIPT![x]))) }
        64 => { macro_rules! SECTION { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", SECTION!(x), classes!(SECTION!(x)))) }
        65 => { macro_rules! SELECT { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(SELECT!(x), z = SELECT![x])) }
        66 => { macro_rules! SLOT { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { SLOT!(x) } else { SLOT!(x) }))) }
        67 => { macro_rules! SMALL { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(SMALL!(x), id = SMALL![x])) }
        68 => { macro_rules! SPAN { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(SPAN!(x), SPAN!(x))) }
        69 => { macro_rules! STRONG { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(STRONG!(x), STRONG![x])) }
        70 => { macro_rules! STYLE { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = STYLE!(x), b = STYLE!(x))) }
        71 => { macro_rules! SUB { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(SUB!(x)), SUB![x])) }
        72 => { macro_rules! SUMMARY { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = SUMMARY!(x), br!(), (SUMMARY!(x)))) }
        73 => { macro_rules! SUP { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ SUP!(x) }, span!(id = SUP![x]))) }
        74 => { macro_rules! TABLE { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", TABLE!(x), classes!(TABLE!(x)))) }
        75 => { macro_rules! TBODY { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(TBODY!(x), z = TBODY![x])) }
        76 => { macro_rules! TD { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { TD!(x) } else { TD!(x) }))) }
        77 => { macro_rules! TEMPLATE { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(TEMPLATE!(x), id = TEMPLATE![x])) }
        78 => { macro_rules! TEXTAREA { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(TEXTAREA!(x), TEXTAREA!(x))) }
        79 => { macro_rules! TFOOT { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(TFOOT!(x), TFOOT![x])) }
        80 => { macro_rules! TH { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = TH!(x), b = TH!(x))) }
        81 => { macro_rules! THEAD { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(THEAD!(x)), THEAD![x])) }
        82 => { macro_rules! TIME { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = TIME!(x), br!(), (TIME!(x)))) }
        83 => { macro_rules! TITLE { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ TITLE!(x) }, span!(id = TITLE![x]))) }
        84 => { macro_rules! TR { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", TR!(x), classes!(TR!(x)))) }
        85 => { macro_rules! UL { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { UL!(x) } else { UL!(x) }))) }
        86 => { macro_rules! VAR { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(VAR!(x), id = VAR![x])) }
        87 => { macro_rules! VIDEO { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(VIDEO!(x), VIDEO!(x))) }
        88 => { macro_rules! AREA { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(AREA!(x), AREA![x])) }
        89 => { macro_rules! BASE { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = BASE!(x), b = BASE!(x))) }
        90 => { macro_rules! BR { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(BR!(x)), BR![x])) }
        91 => { macro_rules! COL { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = COL!(x), br!(), (COL!(x)))) }
        92 => { macro_rules! EMBED { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ EMBED!(x) }, span!(id = EMBED![x]))) }
        93 => { macro_rules! HR { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", HR!(x), classes!(HR!(x)))) }
        94 => { macro_rules! IMG { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(IMG!(x), z = IMG![x])) }
        95 => { macro_rules! INPUT { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { INPUT!(x) } else { INPUT!(x) }))) }
        96 => { macro_rules! LINK { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(LINK!(x), id = LINK![x])) }
        97 => { macro_rules! META { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(META!(x), META!(x))) }
        98 => { macro_rules! PARAM { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(PARAM!(x), PARAM![x])) }
        99 => { macro_rules! SOURCE { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = SOURCE!(x), b = SOURCE!(x))) }
        100 => { macro_rules! TRACK { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(TRACK!(x)), TRACK![x])) }
        101 => { macro_rules! WBR { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = WBR!(x), br!(), (WBR!(x)))) }
        102 => { macro_rules! FRAG { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ FRAG!(x) }, span!(id = FRAG![x]))) }
        103 => { macro_rules! CLASSES { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", CLASSES!(x), classes!(CLASSES!(x)))) }
        104 => { macro_rules! BOOL { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(BOOL!(x), z = BOOL![x])) }
        105 => { macro_rules! FRAG_MATCH { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { FRAG_MATCH!(x) } else { FRAG_MATCH!(x) }))) }
        106 => { macro_rules! ITER { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(ITER!(x), id = ITER![x])) }
        _ => { macro_rules! RAW { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(RAW!(x), RAW!(x))) } } }
    h_18_near02(b) { let x = t(1); let k = bool_(); match choose(120) { 0 => { macro_rules! abbrs { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = abbrs!(x), b = abbrs![x])) }
        1 => { macro_rules! addresss { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(addresss!(x)), addresss!(x))) }
        2 => { macro_rules! articles { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = articles!(x), br!(), (articles![x]))) }
        3 => { macro_rules! asides { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ asides!(x) }, span!(id = asides!(x)))) }
        4 => { macro_rules! audios { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", audios!(x), classes!(audios![x]))) }
        5 => { macro_rules! bs { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(bs!(x), z = bs!(x))) }
        6 => { macro_rules! bdis { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { bdis!(x) } else { bdis![x] }))) }
        7 => { macro_rules! bdos { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(bdos!(x), id = bdos!(x))) }
        8 => { macro_rules! blockquotes { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(blockquotes!(x), blockquotes![x])) }
        9 => { macro_rules! bodys { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(bodys!(x), bodys!(x))) }
        10 => { macro_rules! buttons { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = buttons!(x), b = buttons![x])) }
        11 => { macro_rules! canvass { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(canvass!(x)), canvass!(x))) }
        12 => { macro_rules! captions { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = captions!(x), br!(), (captions![x]))) }
        13 => { macro_rules! cites { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ cites!(x) }, span!(id = cites!(x)))) }
        14 => { macro_rules! codes { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", codes!(x), classes!(codes![x]))) }
        15 => { macro_rules! colgroups { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(colgroups!(x), z = colgroups!(x))) }
        16 => { macro_rules! datas { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { datas!(x) } else { datas![x] }))) }
        17 => { macro_rules! datalists { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(datalists!(x), id = datalists!(x))) }
        18 => { macro_rules! dds { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(dds!(x), dds![x])) }
        19 => { macro_rules! dels { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(dels!(x), dels!(x))) }
        20 => { macro_rules! detailss { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = detailss!(x), b = detailss![x])) }
        21 => { macro_rules! dfns { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(dfns!(x)), dfns!(x))) }
        22 => { macro_rules! dialogs { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = dialogs!(x), br!(), (dialogs![x]))) }
        23 => { macro_rules! divs { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ divs!(x) }, span!(id = divs!(x)))) }
        24 => { macro_rules! dls { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", dls!(x), classes!(dls![x]))) }
        25 => { macro_rules! dts { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(dts!(x), z = dts!(x))) }
        26 => { macro_rules! ems { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { ems!(x) } else { ems![x] }))) }
        27 => { macro_rules! fieldsets { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(fieldsets!(x), id = fieldsets!(x))) }
        28 => { macro_rules! figcaptions { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(figcaptions!(x), figcaptions![x])) }
        29 => { macro_rules! figures { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(figures!(x), figures!(x))) }
        30 => { macro_rules! footers { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = footers!(x), b = footers![x])) }
        31 => { macro_rules! forms { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(forms!(x)), forms!(x))) }
        32 => { macro_rules! h1s { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = h1s!(x), br!(), (h1s![x]))) }
        33 => { macro_rules! h2s { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ h2s!(x) }, span!(id = h2s!(x)))) }
        34 => { macro_rules! h3s { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", h3s!(x), classes!(h3s![x]))) }
        35 => { macro_rules! h4s { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(h4s!(x), z = h4s!(x))) }
        36 => { macro_rules! h5s { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { h5s!(x) } else { h5s![x] }))) }
        37 => { macro_rules! h6s { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(h6s!(x), id = h6s!(x))) }
        38 => { macro_rules! heads { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(heads!(x), heads![x])) }
        39 => { macro_rules! headers { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(headers!(x), headers!(x))) }
        40 => { macro_rules! hgroups { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = hgroups!(x), b = hgroups![x])) }
        41 => { macro_rules! htmls { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(htmls!(x)), htmls!(x))) }
        42 => { macro_rules! is { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = is!(x), br!(), (is![x]))) }
        43 => { macro_rules! iframes { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ iframes!(x) }, span!(id = iframes!(x)))) }
        44 => { macro_rules! inss { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", inss!(x), classes!(inss![x]))) }
        45 => { macro_rules! kbds { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(kbds!(x), z = kbds!(x))) }
        46 => { macro_rules! labels { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { labels!(x) } else { labels![x] }))) }
        47 => { macro_rules! legends { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(legends!(x), id = legends!(x))) }
        48 => { macro_rules! lis { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(lis!(x), lis![x])) }
        49 => { macro_rules! mains { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(mains!(x), mains!(x))) }
        50 => { macro_rules! maps { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = maps!(x), b = maps![x])) }
        51 => { macro_rules! marks { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(marks!(x)), marks!(x))) }
        52 => { macro_rules! menus { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = menus!(x), br!(), (menus![x]))) }
        53 => { macro_rules! menuitems { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ menuitems!(x) }, span!(id = menuitems!(x)))) }
        54 => { macro_rules! meters { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", meters!(x), classes!(meters![x]))) }
        55 => { macro_rules! navs { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(navs!(x), z = navs!(x))) }
        56 => { macro_rules! noscripts { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { noscripts!(x) } else { noscripts![x] }))) }
        57 => { macro_rules! objects { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(objects!(x), id = objects!(x))) }
        58 => { macro_rules! ols { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(ols!(x), ols![x])) }
        59 => { macro_rules! optgroups { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(optgroups!(x), optgroups!(x))) }
        60 => { macro_rules! options { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = options!(x), b = options![x])) }
        61 => { macro_rules! outputs { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(outputs!(x)), outputs!(x))) }
        62 => { macro_rules! ps { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = ps!(x), br!(), (ps![x]))) }
        63 => { macro_rules! pictures { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ pictures!(x) }, span!(id = pictures!(x)))) }
        64 => { macro_rules! pres { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", pres!(x), classes!(pres![x]))) }
        65 => { macro_rules! progresss { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(progresss!(x), z = progresss!(x))) }
        66 => { macro_rules! qs { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { qs!(x) } else { qs![x] }))) }
        67 => { macro_rules! rbs { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(rbs!(x), id = rbs!(x))) }
        68 => { macro_rules! rps { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(rps!(x), rps![x])) }
        69 => { macro_rules! rts { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(rts!(x), rts!(x))) }
        70 => { macro_rules! rtcs { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = rtcs!(x), b = rtcs![x])) }
        71 => { macro_rules! rubys { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(rubys!(x)), rubys!(x))) }
        72 => { macro_rules! ss { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = ss!(x), br!(), (ss![x]))) }
        73 => { macro_rules! samps { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ samps!(x) }, span!(id = samps!(x)))) }
        74 => { macro_rules! scripts { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", scripts!(x), classes!(scripts![x]))) }
        75 => { macro_rules! sections { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(sections!(x), z = sections!(x))) }
        76 => { macro_rules! selects { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { selects!(x) } else { selects![x] }))) }
        77 => { macro_rules! slots { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(slots!(x), id = slots!(x))) }
        78 => { macro_rules! smalls { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(smalls!(x), smalls![x])) }
        79 => { macro_rules! spans { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(spans!(x), spans!(x))) }
        80 => { macro_rules! strongs { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = strongs!(x), b = strongs![x])) }
        81 => { macro_rules! styles { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(styles!(x)), styles!(x))) }
        82 => { macro_rules! subs { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = subs!(x), br!(), (subs![x]))) }
        83 => { macro_rules! summarys { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ summarys!(x) }, span!(id = summarys!(x)))) }
        84 => { macro_rules! sups { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", sups!(x), classes!(sups![x]))) }
        85 => { macro_rules! tables { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(tables!(x), z = tables!(x))) }
        86 => { macro_rules! tbodys { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { tbodys!(x) } else { tbodys![x] }))) }
        87 => { macro_rules! tds { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(tds!(x), id = tds!(x))) }
        88 => { macro_rules! templates { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(templates!(x), templates![x])) }
        89 => { macro_rules! textareas { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(textareas!(x), textareas!(x))) }
        90 => { macro_rules! tfoots { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = tfoots!(x), b = tfoots![x])) }
        91 => { macro_rules! ths { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(ths!(x)), ths!(x))) }
        92 => { macro_rules! theads { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = theads!(x), br!(), (theads![x]))) }
        93 => { macro_rules! times { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ times!(x) }, span!(id = times!(x)))) }
        94 => { macro_rules! titles { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", titles!(x), classes!(titles![x]))) }
        95 => { macro_rules! trs { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(trs!(x), z = trs!(x))) }
        96 => { macro_rules! us { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { us!(x) } else { us![x] }))) }
        97 => { macro_rules! uls { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(uls!(x), id = uls!(x))) }
        98 => { macro_rules! vars { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(vars!(x), vars![x])) }
        99 => { macro_rules! videos { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(videos!(x), videos!(x))) }
        100 => { macro_rules! areas { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = areas!(x), b = areas![x])) }
        101 => { macro_rules! bases { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(bases!(x)), bases!(x))) }
        102 => { macro_rules! brs { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = brs!(x), br!(), (brs![x]))) }
        103 => { macro_rules! cols { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ cols!(x) }, span!(id = cols!(x)))) }
        104 => { macro_rules! embeds { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", embeds!(x), classes!(embeds![x]))) }
        105 => { macro_rules! hrs { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(hrs!(x), z = hrs!(x))) }
        106 => { macro_rules! imgs { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { imgs!(x) } else { imgs![x] }))) }
        107 => { macro_rules! inputs { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(inputs!(x), id = inputs!(x))) }
        108 => { macro_rules! links { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(links!(x), links![x])) }
        109 => { macro_rules! metas { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(metas!(x), metas!(x))) }
        110 => { macro_rules! params { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = params!(x), b = params![x])) }
        111 => { macro_rules! sources { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(sources!(x)), sources!(x))) }
        112 => { macro_rules! tracks { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = tracks!(x), br!(), (tracks![x]))) }
        113 => { macro_rules! wbrs { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ wbrs!(x) }, span!(id = wbrs!(x)))) }
        114 => { macro_rules! frags { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", frags!(x), classes!(frags![x]))) }
        115 => { macro_rules! classess { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(classess!(x), z = classess!(x))) }
        116 => { macro_rules! bools { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { bools!(x) } else { bools![x] }))) }
        117 => { macro_rules! frag_matchs { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(frag_matchs!(x), id = frag_matchs!(x))) }
        118 => { macro_rules! iters { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(iters!(x), iters![x])) }
        _ => { macro_rules! raws { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(raws!(x), raws!(x))) } } }
    h_18_near03(b) { let x = t(1); let k = bool_(); match choose(121) { 0 => { macro_rules! a_ { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = a_!(x), b = a_!(x))) }
        1 => { macro_rules! abbr_ { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(abbr_!(x)), abbr_![x])) }
        2 => { macro_rules! address_ { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = address_!(x), br!(), (address_!(x)))) }
        3 => { macro_rules! article_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ article_!(x) }, span!(id = article_![x]))) }
        4 => { macro_rules! aside_ { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", aside_!(x), classes!(aside_!(x)))) }
        5 => { macro_rules! audio_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(audio_!(x), z = audio_![x])) }
        6 => { macro_rules! b_ { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { b_!(x) } else { b_!(x) }))) }
        7 => { macro_rules! bdi_ { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(bdi_!(x), id = bdi_![x])) }
        8 => { macro_rules! bdo_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(bdo_!(x), bdo_!(x))) }
        9 => { macro_rules! blockquote_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(blockquote_!(x), blockquote_![x])) }
        10 => { macro_rules! body_ { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = body_!(x), b = body_!(x))) }
        11 => { macro_rules! button_ { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(button_!(x)), button_![x])) }
        12 => { macro_rules! canvas_ { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = canvas_!(x), br!(), (canvas_!(x)))) }
        13 => { macro_rules! caption_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ caption_!(x) }, span!(id = caption_![x]))) }
        14 => { macro_rules! cite_ { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", cite_!(x), classes!(cite_!(x)))) }
        15 => { macro_rules! code_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(code_!(x), z = code_![x])) }
        16 => { macro_rules! colgroup_ { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { colgroup_!(x) } else { colgroup_!(x) }))) }
        17 => { macro_rules! data_ { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(data_!(x), id = data_![x])) }
        18 => { macro_rules! datalist_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(datalist_!(x), datalist_!(x))) }
        19 => { macro_rules! dd_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(dd_!(x), dd_![x])) }
        20 => { macro_rules! del_ { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = del_!(x), b = del_!(x))) }
        21 => { macro_rules! details_ { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(details_!(x)), details_![x])) }
        22 => { macro_rules! dfn_ { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = dfn_!(x), br!(), (dfn_!(x)))) }
        23 => { macro_rules! dialog_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ dialog_!(x) }, span!(id = dialog_![x]))) }
        24 => { macro_rules! div_ { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", div_!(x), classes!(div_!(x)))) }
        25 => { macro_rules! dl_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(dl_!(x), z = dl_![x])) }
        26 => { macro_rules! dt_ { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { dt_!(x) } else { dt_!(x) }))) }
        27 => { macro_rules! em_ { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(em_!(x), id = em_![x])) }
        28 => { macro_rules! fieldset_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(fieldset_!(x), fieldset_!(x))) }
        29 => { macro_rules! figcaption_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(figcaption_!(x), figcaption_![x])) }
        30 => { macro_rules! figure_ { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = figure_!(x), b = figure_!(x))) }
        31 => { macro_rules! footer_ { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(footer_!(x)), footer_![x])) }
        32 => { macro_rules! form_ { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = form_!(x), br!(), (form_!(x)))) }
        33 => { macro_rules! h1_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ h1_!(x) }, span!(id = h1_![x]))) }
        34 => { macro_rules! h2_ { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", h2_!(x), classes!(h2_!(x)))) }
        35 => { macro_rules! h3_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(h3_!(x), z = h3_![x])) }
        36 => { macro_rules! h4_ { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { h4_!(x) } else { h4_!(x) }))) }
        37 => { macro_rules! h5_ { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(h5_!(x), id = h5_![x])) }
        38 => { macro_rules! h6_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(h6_!(x), h6_!(x))) }
        39 => { macro_rules! head_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(head_!(x), head_![x])) }
        40 => { macro_rules! header_ { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = header_!(x), b = header_!(x))) }
        41 => { macro_rules! hgroup_ { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(hgroup_!(x)), hgroup_![x])) }
        42 => { macro_rules! html_ { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = html_!(x), br!(), (html_!(x)))) }
        43 => { macro_rules! i_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ i_!(x) }, span!(id = i_![x]))) }
        44 => { macro_rules! iframe_ { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", iframe_!(x), classes!(iframe_!(x)))) }
        45 => { macro_rules! ins_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(ins_!(x), z = ins_![x])) }
        46 => { macro_rules! kbd_ { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { kbd_!(x) } else { kbd_!(x) }))) }
        47 => { macro_rules! label_ { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(label_!(x), id = label_![x])) }
        48 => { macro_rules! legend_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(legend_!(x), legend_!(x))) }
        49 => { macro_rules! li_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(li_!(x), li_![x])) }
        50 => { macro_rules! main_ { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = main_!(x), b = main_!(x))) }
        51 => { macro_rules! map_ { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(map_!(x)), map_![x])) }
        52 => { macro_rules! mark_ { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = mark_!(x), br!(), (mark_!(x)))) }
        53 => { macro_rules! menu_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ menu_!(x) }, span!(id = menu_![x]))) }
        54 => { macro_rules! menuitem_ { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", menuitem_!(x), classes!(menuitem_!(x)))) }
        55 => { macro_rules! meter_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(meter_!(x), z = meter_![x])) }
        56 => { macro_rules! nav_ { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { nav_!(x) } else { nav_!(x) }))) }
        57 => { macro_rules! noscript_ { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(noscript_!(x), id = noscript_![x])) }
        58 => { macro_rules! object_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(object_!(x), object_!(x))) }
        59 => { macro_rules! ol_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(ol_!(x), ol_![x])) }
        60 => { macro_rules! optgroup_ { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = optgroup_!(x), b = optgroup_!(x))) }
        61 => { macro_rules! option_ { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(option_!(x)), option_![x])) }
        62 => { macro_rules! output_ { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = output_!(x), br!(), (output_!(x)))) }
        63 => { macro_rules! p_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ p_!(x) }, span!(id = p_![x]))) }
        64 => { macro_rules! picture_ { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", picture_!(x), classes!(picture_!(x)))) }
        65 => { macro_rules! pre_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(pre_!(x), z = pre_![x])) }
        66 => { macro_rules! progress_ { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { progress_!(x) } else { progress_!(x) }))) }
        67 => { macro_rules! q_ { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(q_!(x), id = q_![x])) }
        68 => { macro_rules! rb_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(rb_!(x), rb_!(x))) }
        69 => { macro_rules! rp_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(rp_!(x), rp_![x])) }
        70 => { macro_rules! rt_ { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = rt_!(x), b = rt_!(x))) }
        71 => { macro_rules! rtc_ { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(rtc_!(x)), rtc_![x])) }
        72 => { macro_rules! ruby_ { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = ruby_!(x), br!(), (ruby_!(x)))) }
        73 => { macro_rules! s_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ s_!(x) }, span!(id = s_![x]))) }
        74 => { macro_rules! samp_ { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", samp_!(x), classes!(samp_!(x)))) }
        75 => { macro_rules! script_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(script_!(x), z = script_![x])) }
        76 => { macro_rules! section_ { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { section_!(x) } else { section_!(x) }))) }
        77 => { macro_rules! select_ { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(select_!(x), id = select_![x])) }
        78 => { macro_rules! slot_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(slot_!(x), slot_!(x))) }
        79 => { macro_rules! small_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(small_!(x), small_![x])) }
        80 => { macro_rules! span_ { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = span_!(x), b = span_!(x))) }
        81 => { macro_rules! strong_ { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(strong_!(x)), strong_![x])) }
        82 => { macro_rules! style_ { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = style_!(x), br!(), (style_!(x)))) }
        83 => { macro_rules! sub_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ sub_!(x) }, span!(id = sub_![x]))) }
        84 => { macro_rules! summary_ { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", summary_!(x), classes!(summary_!(x)))) }
        85 => { macro_rules! sup_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(sup_!(x), z = sup_![x])) }
        86 => { macro_rules! table_ { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { table_!(x) } else { table_!(x) }))) }
        87 => { macro_rules! tbody_ { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(tbody_!(x), id = tbody_![x])) }
        88 => { macro_rules! td_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(td_!(x), td_!(x))) }
        89 => { macro_rules! template_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(template_!(x), template_![x])) }
        90 => { macro_rules! textarea_ { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = textarea_!(x), b = textarea_!(x))) }
        91 => { macro_rules! tfoot_ { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(tfoot_!(x)), tfoot_![x])) }
        92 => { macro_rules! th_ { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = th_!(x), br!(), (th_!(x)))) }
        93 => { macro_rules! thead_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ thead_!(x) }, span!(id = thead_![x]))) }
        94 => { macro_rules! time_ { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", time_!(x), classes!(time_!(x)))) }
        95 => { macro_rules! title_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(title_!(x), z = title_![x])) }
        96 => { macro_rules! tr_ { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { tr_!(x) } else { tr_!(x) }))) }
        97 => { macro_rules! u_ { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(u_!(x), id = u_![x])) }
        98 => { macro_rules! ul_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(ul_!(x), ul_!(x))) }
        99 => { macro_rules! var_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(var_!(x), var_![x])) }
        100 => { macro_rules! video_ { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = video_!(x), b = video_!(x))) }
        101 => { macro_rules! area_ { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(area_!(x)), area_![x])) }
        102 => { macro_rules! base_ { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = base_!(x), br!(), (base_!(x)))) }
        103 => { macro_rules! br_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ br_!(x) }, span!(id = br_![x]))) }
        104 => { macro_rules! col_ { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", col_!(x), classes!(col_!(x)))) }
        105 => { macro_rules! embed_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(embed_!(x), z = embed_![x])) }
        106 => { macro_rules! hr_ { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { hr_!(x) } else { hr_!(x) }))) }
        107 => { macro_rules! img_ { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(img_!(x), id = img_![x])) }
        108 => { macro_rules! input_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(input_!(x), input_!(x))) }
        109 => { macro_rules! link_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(link_!(x), link_![x])) }
        110 => { macro_rules! meta_ { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = meta_!(x), b = meta_!(x))) }
        111 => { macro_rules! param_ { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(param_!(x)), param_![x])) }
        112 => { macro_rules! source_ { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = source_!(x), br!(), (source_!(x)))) }
        113 => { macro_rules! track_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ track_!(x) }, span!(id = track_![x]))) }
        114 => { macro_rules! wbr_ { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", wbr_!(x), classes!(wbr_!(x)))) }
        115 => { macro_rules! frag_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(frag_!(x), z = frag_![x])) }
        116 => { macro_rules! classes_ { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { classes_!(x) } else { classes_!(x) }))) }
        117 => { macro_rules! bool_ { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(bool_!(x), id = bool_![x])) }
        118 => { macro_rules! frag_match_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(frag_match_!(x), frag_match_!(x))) }
        119 => { macro_rules! iter_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(iter_!(x), iter_![x])) }
        _ => { macro_rules! raw_ { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = raw_!(x), b = raw_!(x))) } } }
    h_18_near04(b) { let x = t(1); let k = bool_(); match choose(121) { 0 => { macro_rules! xa { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(xa!(x)), xa!(x))) }
        1 => { macro_rules! xabbr { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = xabbr!(x), br!(), (xabbr![x]))) }
        2 => { macro_rules! xaddress { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ xaddress!(x) }, span!(id = xaddress!(x)))) }
        3 => { macro_rules! xarticle { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", xarticle!(x), classes!(xarticle![x]))) }
        4 => { macro_rules! xaside { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(xaside!(x), z = xaside!(x))) }
        5 => { macro_rules! xaudio { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { xaudio!(x) } else { xaudio![x] }))) }
        6 => { macro_rules! xb { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(xb!(x), id = xb!(x))) }
        7 => { macro_rules! xbdi { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(xbdi!(x), xbdi![x])) }
        8 => { macro_rules! xbdo { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(xbdo!(x), xbdo!(x))) }
        9 => { macro_rules! xblockquote { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = xblockquote!(x), b = xblockquote![x])) }
        10 => { macro_rules! xbody { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(xbody!(x)), xbody!(x))) }
        11 => { macro_rules! xbutton { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = xbutton!(x), br!(), (xbutton![x]))) }
        12 => { macro_rules! xcanvas { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ xcanvas!(x) }, span!(id = xcanvas!(x)))) }
        13 => { macro_rules! xcaption { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", xcaption!(x), classes!(xcaption![x]))) }
        14 => { macro_rules! xcite { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(xcite!(x), z = xcite!(x))) }
        15 => { macro_rules! xcode { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { xcode!(x) } else { xcode![x] }))) }
        16 => { macro_rules! xcolgroup { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(xcolgroup!(x), id = xcolgroup!(x))) }
        17 => { macro_rules! xdata { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(xdata!(x), xdata![x])) }
        18 => { macro_rules! xdatalist { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(xdatalist!(x), xdatalist!(x))) }
        19 => { macro_rules! xdd { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = xdd!(x), b = xdd![x])) }
        20 => { macro_rules! xdel { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(xdel!(x)), xdel!(x))) }
        21 => { macro_rules! xdetails { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = xdetails!(x), br!(), (xdetails![x]))) }
        22 => { macro_rules! xdfn { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ xdfn!(x) }, span!(id = xdfn!(x)))) }
        23 => { macro_rules! xdialog { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", xdialog!(x), classes!(xdialog![x]))) }
        24 => { macro_rules! xdiv { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(xdiv!(x), z = xdiv!(x))) }
        25 => { macro_rules! xdl { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { xdl!(x) } else { xdl![x] }))) }
        26 => { macro_rules! xdt { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(xdt!(x), id = xdt!(x))) }
        27 => { macro_rules! xem { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(xem!(x), xem![x])) }
        28 => { macro_rules! xfieldset { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(xfieldset!(x), xfieldset!(x))) }
        29 => { macro_rules! xfigcaption { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = xfigcaption!(x), b = xfigcaption![x])) }
        30 => { macro_rules! xfigure { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(xfigure!(x)), xfigure!(x))) }
        31 => { macro_rules! xfooter { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = xfooter!(x), br!(), (xfooter![x]))) }
        32 => { macro_rules! xform { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ xform!(x) }, span!(id = xform!(x)))) }
        33 => { macro_rules! xh1 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", xh1!(x), classes!(xh1![x]))) }
        34 => { macro_rules! xh2 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(xh2!(x), z = xh2!(x))) }
        35 => { macro_rules! xh3 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { xh3!(x) } else { xh3![x] }))) }
        36 => { macro_rules! xh4 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(xh4!(x), id = xh4!(x))) }
        37 => { macro_rules! xh5 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(xh5!(x), xh5![x])) }
        38 => { macro_rules! xh6 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(xh6!(x), xh6!(x))) }
        39 => { macro_rules! xhead { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = xhead!(x), b = xhead![x])) }
        40 => { macro_rules! xheader { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(xheader!(x)), xheader!(x))) }
        41 => { macro_rules! xhgroup { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = xhgroup!(x), br!(), (xhgroup![x]))) }
        42 => { macro_rules! xhtml { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ xhtml!(x) }, span!(id = xhtml!(x)))) }
        43 => { macro_rules! xi { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", xi!(x), classes!(xi![x]))) }
        44 => { macro_rules! xiframe { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(xiframe!(x), z = xiframe!(x))) }
        45 => { macro_rules! xins { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { xins!(x) } else { xins![x] }))) }
        46 => { macro_rules! xkbd { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(xkbd!(x), id = xkbd!(x))) }
        47 => { macro_rules! xlabel { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(xlabel!(x), xlabel![x])) }
        48 => { macro_rules! xlegend { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(xlegend!(x), xlegend!(x))) }
        49 => { macro_rules! xli { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = xli!(x), b = xli![x])) }
        50 => { macro_rules! xmain { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(xmain!(x)), xmain!(x))) }
        51 => { macro_rules! xmap { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = xmap!(x), br!(), (xmap![x]))) }
        52 => { macro_rules! xmark { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ xmark!(x) }, span!(id = xmark!(x)))) }
        53 => { macro_rules! xmenu { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", xmenu!(x), classes!(xmenu![x]))) }
        54 => { macro_rules! xmenuitem { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(xmenuitem!(x), z = xmenuitem!(x))) }
        55 => { macro_rules! xmeter { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { xmeter!(x) } else { xmeter![x] }))) }
        56 => { macro_rules! xnav { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(xnav!(x), id = xnav!(x))) }
        57 => { macro_rules! xnoscript { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(xnoscript!(x), xnoscript![x])) }
        58 => { macro_rules! xobject { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(xobject!(x), xobject!(x))) }
        59 => { macro_rules! xol { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = xol!(x), b = xol![x])) }
        60 => { macro_rules! xoptgroup { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(xoptgroup!(x)), xoptgroup!(x))) }
        61 => { macro_rules! xoption { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = xoption!(x), br!(), (xoption![x]))) }
        62 => { macro_rules! xoutput { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ xoutput!(x) }, span!(id = xoutput!(x)))) }
        63 => { macro_rules! xp { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", xp!(x), classes!(xp![x]))) }
        64 => { macro_rules! xpicture { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(xpicture!(x), z = xpicture!(x))) }
        65 => { macro_rules! xpre { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { xpre!(x) } else { xpre![x] }))) }
        66 => { macro_rules! xprogress { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(xprogress!(x), id = xprogress!(x))) }
        67 => { macro_rules! xq { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(xq!(x), xq![x])) }
        68 => { macro_rules! xrb { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(xrb!(x), xrb!(x))) }
        69 => { macro_rules! xrp { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = xrp!(x), b = xrp![x])) }
        70 => { macro_rules! xrt { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(xrt!(x)), xrt!(x))) }
        71 => { macro_rules! xrtc { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = xrtc!(x), br!(), (xrtc![x]))) }
        72 => { macro_rules! xruby { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ xruby!(x) }, span!(id = xruby!(x)))) }
        73 => { macro_rules! xs { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", xs!(x), classes!(xs![x]))) }
        74 => { macro_rules! xsamp { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(xsamp!(x), z = xsamp!(x))) }
        75 => { macro_rules! xscript { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { xscript!(x) } else { xscript![x] }))) }
        76 => { macro_rules! xsection { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(xsection!(x), id = xsection!(x))) }
        77 => { macro_rules! xselect { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(xselect!(x), xselect![x])) }
        78 => { macro_rules! xslot { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(xslot!(x), xslot!(x))) }
        79 => { macro_rules! xsmall { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = xsmall!(x), b = xsmall![x])) }
        80 => { macro_rules! xspan { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(xspan!(x)), xspan!(x))) }
        81 => { macro_rules! xstrong { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = xstrong!(x), br!(), (xstrong![x]))) }
        82 => { macro_rules! xstyle { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ xstyle!(x) }, span!(id = xstyle!(x)))) }
        83 => { macro_rules! xsub { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", xsub!(x), classes!(xsub![x]))) }
        84 => { macro_rules! xsummary { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(xsummary!(x), z = xsummary!(x))) }
        85 => { macro_rules! xsup { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { xsup!(x) } else { xsup![x] }))) }
        86 => { macro_rules! xtable { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(xtable!(x), id = xtable!(x))) }
        87 => { macro_rules! xtbody { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(xtbody!(x), xtbody![x])) }
        88 => { macro_rules! xtd { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(xtd!(x), xtd!(x))) }
        89 => { macro_rules! xtemplate { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = xtemplate!(x), b = xtemplate![x])) }
        90 => { macro_rules! xtextarea { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(xtextarea!(x)), xtextarea!(x))) }
        91 => { macro_rules! xtfoot { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = xtfoot!(x), br!(), (xtfoot![x]))) }
        92 => { macro_rules! xth { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ xth!(x) }, span!(id = xth!(x)))) }
        93 => { macro_rules! xthead { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", xthead!(x), classes!(xthead![x]))) }
        94 => { macro_rules! xtime { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(xtime!(x), z = xtime!(x))) }
        95 => { macro_rules! xtitle { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { xtitle!(x) } else { xtitle![x] }))) }
        96 => { macro_rules! xtr { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(xtr!(x), id = xtr!(x))) }
        97 => { macro_rules! xu { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(xu!(x), xu![x])) }
        98 => { macro_rules! xul { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(xul!(x), xul!(x))) }
        99 => { macro_rules! xvar { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = xvar!(x), b = xvar![x])) }
        100 => { macro_rules! xvideo { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(xvideo!(x)), xvideo!(x))) }
        101 => { macro_rules! xarea { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = xarea!(x), br!(), (xarea![x]))) }
        102 => { macro_rules! xbase { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ xbase!(x) }, span!(id = xbase!(x)))) }
        103 => { macro_rules! xbr { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", xbr!(x), classes!(xbr![x]))) }
        104 => { macro_rules! xcol { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(xcol!(x), z = xcol!(x))) }
        105 => { macro_rules! xembed { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { xembed!(x) } else { xembed![x] }))) }
        106 => { macro_rules! xhr { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(xhr!(x), id = xhr!(x))) }
        107 => { macro_rules! ximg { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(ximg!(x), ximg![x])) }
        108 => { macro_rules! xinput { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(xinput!(x), xinput!(x))) }
        109 => { macro_rules! xlink { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = xlink!(x), b = xlink![x])) }
        110 => { macro_rules! xmeta { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(xmeta!(x)), xmeta!(x))) }
        111 => { macro_rules! xparam { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = xparam!(x), br!(), (xparam![x]))) }
        112 => { macro_rules! xsource { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ xsource!(x) }, span!(id = xsource!(x)))) }
        113 => { macro_rules! xtrack { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", xtrack!(x), classes!(xtrack![x]))) }
        114 => { macro_rules! xwbr { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(xwbr!(x), z = xwbr!(x))) }
        115 => { macro_rules! xfrag { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { xfrag!(x) } else { xfrag![x] }))) }
        116 => { macro_rules! xclasses { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(xclasses!(x), id = xclasses!(x))) }
        117 => { macro_rules! xbool { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(xbool!(x), xbool![x])) }
        118 => { macro_rules! xfrag_match { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(xfrag_match!(x), xfrag_match!(x))) }
        119 => { macro_rules! xiter { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = xiter!(x), b = xiter![x])) }
        _ => { macro_rules! xraw { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(xraw!(x)), xraw!(x))) } } }
    h_18_near05(b) { let x = t(1); let k = bool_(); match choose(121) { 0 => { macro_rules! a1 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = a1!(x), br!(), (a1!(x)))) }
        1 => { macro_rules! abbr1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ abbr1!(x) }, span!(id = abbr1![x]))) }
        2 => { macro_rules! address1 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", address1!(x), classes!(address1!(x)))) }
        3 => { macro_rules! article1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(article1!(x), z = article1![x])) }
        4 => { macro_rules! aside1 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { aside1!(x) } else { aside1!(x) }))) }
        5 => { macro_rules! audio1 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(audio1!(x), id = audio1![x])) }
        6 => { macro_rules! b1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(b1!(x), b1!(x))) }
        7 => { macro_rules! bdi1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(bdi1!(x), bdi1![x])) }
        8 => { macro_rules! bdo1 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = bdo1!(x), b = bdo1!(x))) }
        9 => { macro_rules! blockquote1 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(blockquote1!(x)), blockquote1![x])) }
        10 => { macro_rules! body1 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = body1!(x), br!(), (body1!(x)))) }
        11 => { macro_rules! button1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ button1!(x) }, span!(id = button1![x]))) }
        12 => { macro_rules! canvas1 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", canvas1!(x), classes!(canvas1!(x)))) }
        13 => { macro_rules! caption1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(caption1!(x), z = caption1![x])) }
        14 => { macro_rules! cite1 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { cite1!(x) } else { cite1!(x) }))) }
        15 => { macro_rules! code1 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(code1!(x), id = code1![x])) }
        16 => { macro_rules! colgroup1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(colgroup1!(x), colgroup1!(x))) }
        17 => { macro_rules! data1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(data1!(x), data1![x])) }
        18 => { macro_rules! datalist1 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = datalist1!(x), b = datalist1!(x))) }
        19 => { macro_rules! dd1 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(dd1!(x)), dd1![x])) }
        20 => { macro_rules! del1 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = del1!(x), br!(), (del1!(x)))) }
        21 => { macro_rules! details1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ details1!(x) }, span!(id = details1![x]))) }
        22 => { macro_rules! dfn1 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", dfn1!(x), classes!(dfn1!(x)))) }
        23 => { macro_rules! dialog1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(dialog1!(x), z = dialog1![x])) }
        24 => { macro_rules! div1 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { div1!(x) } else { div1!(x) }))) }
        25 => { macro_rules! dl1 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(dl1!(x), id = dl1![x])) }
        26 => { macro_rules! dt1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(dt1!(x), dt1!(x))) }
        27 => { macro_rules! em1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(em1!(x), em1![x])) }
        28 => { macro_rules! fieldset1 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = fieldset1!(x), b = fieldset1!(x))) }
        29 => { macro_rules! figcaption1 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(figcaption1!(x)), figcaption1![x])) }
        30 => { macro_rules! figure1 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = figure1!(x), br!(), (figure1!(x)))) }
        31 => { macro_rules! footer1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ footer1!(x) }, span!(id = footer1![x]))) }
        32 => { macro_rules! form1 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", form1!(x), classes!(form1!(x)))) }
        33 => { macro_rules! h11 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(h11!(x), z = h11![x])) }
        34 => { macro_rules! h21 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { h21!(x) } else { h21!(x) }))) }
        35 => { macro_rules! h31 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(h31!(x), id = h31![x])) }
        36 => { macro_rules! h41 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(h41!(x), h41!(x))) }
        37 => { macro_rules! h51 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(h51!(x), h51![x])) }
        38 => { macro_rules! h61 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = h61!(x), b = h61!(x))) }
        39 => { macro_rules! head1 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(head1!(x)), head1![x])) }
        40 => { macro_rules! header1 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = header1!(x), br!(), (header1!(x)))) }
        41 => { macro_rules! hgroup1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ hgroup1!(x) }, span!(id = hgroup1![x]))) }
        42 => { macro_rules! html1 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", html1!(x), classes!(html1!(x)))) }
        43 => { macro_rules! i1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(i1!(x), z = i1![x])) }
        44 => { macro_rules! iframe1 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { iframe1!(x) } else { iframe1!(x) }))) }
        45 => { macro_rules! ins1 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(ins1!(x), id = ins1![x])) }
        46 => { macro_rules! kbd1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(kbd1!(x), kbd1!(x))) }
        47 => { macro_rules! label1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(label1!(x), label1![x])) }
        48 => { macro_rules! legend1 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = legend1!(x), b = legend1!(x))) }
        49 => { macro_rules! li1 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(li1!(x)), li1![x])) }
        50 => { macro_rules! main1 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = main1!(x), br!(), (main1!(x)))) }
        51 => { macro_rules! map1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ map1!(x) }, span!(id = map1![x]))) }
        52 => { macro_rules! mark1 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", mark1!(x), classes!(mark1!(x)))) }
        53 => { macro_rules! menu1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(menu1!(x), z = menu1![x])) }
        54 => { macro_rules! menuitem1 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { menuitem1!(x) } else { menuitem1!(x) }))) }
        55 => { macro_rules! meter1 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(meter1!(x), id = meter1![x])) }
        56 => { macro_rules! nav1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(nav1!(x), nav1!(x))) }
        57 => { macro_rules! noscript1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(noscript1!(x), noscript1![x])) }
        58 => { macro_rules! object1 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = object1!(x), b = object1!(x))) }
        59 => { macro_rules! ol1 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(ol1!(x)), ol1![x])) }
        60 => { macro_rules! optgroup1 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = optgroup1!(x), br!(), (optgroup1!(x)))) }
        61 => { macro_rules! option1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ option1!(x) }, span!(id = option1![x]))) }
        62 => { macro_rules! output1 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", output1!(x), classes!(output1!(x)))) }
        63 => { macro_rules! p1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(p1!(x), z = p1![x])) }
        64 => { macro_rules! picture1 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { picture1!(x) } else { picture1!(x) }))) }
        65 => { macro_rules! pre1 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(pre1!(x), id = pre1![x])) }
        66 => { macro_rules! progress1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(progress1!(x), progress1!(x))) }
        67 => { macro_rules! q1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(q1!(x), q1![x])) }
        68 => { macro_rules! rb1 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = rb1!(x), b = rb1!(x))) }
        69 => { macro_rules! rp1 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(rp1!(x)), rp1![x])) }
        70 => { macro_rules! rt1 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = rt1!(x), br!(), (rt1!(x)))) }
        71 => { macro_rules! rtc1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ rtc1!(x) }, span!(id = rtc1![x]))) }
        72 => { macro_rules! ruby1 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", ruby1!(x), classes!(ruby1!(x)))) }
        73 => { macro_rules! s1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(s1!(x), z = s1![x])) }
        74 => { macro_rules! samp1 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { samp1!(x) } else { samp1!(x) }))) }
        75 => { macro_rules! script1 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(script1!(x), id = script1![x])) }
        76 => { macro_rules! section1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(section1!(x), section1!(x))) }
        77 => { macro_rules! select1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(select1!(x), select1![x])) }
        78 => { macro_rules! slot1 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = slot1!(x), b = slot1!(x))) }
        79 => { macro_rules! small1 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(small1!(x)), small1![x])) }
        80 => { macro_rules! span1 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = span1!(x), br!(), (span1!(x)))) }
        81 => { macro_rules! strong1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ strong1!(x) }, span!(id = strong1![x]))) }
        82 => { macro_rules! style1 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", style1!(x), classes!(style1!(x)))) }
        83 => { macro_rules! sub1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(sub1!(x), z = sub1![x])) }
        84 => { macro_rules! summary1 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { summary1!(x) } else { summary1!(x) }))) }
        85 => { macro_rules! sup1 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(sup1!(x), id = sup1![x])) }
        86 => { macro_rules! table1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(table1!(x), table1!(x))) }
        87 => { macro_rules! tbody1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(tbody1!(x), tbody1![x])) }
        88 => { macro_rules! td1 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = td1!(x), b = td1!(x))) }
        89 => { macro_rules! template1 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(template1!(x)), template1![x])) }
        90 => { macro_rules! textarea1 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = textarea1!(x), br!(), (textarea1!(x)))) }
        91 => { macro_rules! tfoot1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ tfoot1!(x) }, span!(id = tfoot1![x]))) }
        92 => { macro_rules! th1 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", th1!(x), classes!(th1!(x)))) }
        93 => { macro_rules! thead1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(thead1!(x), z = thead1![x])) }
        94 => { macro_rules! time1 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { time1!(x) } else { time1!(x) }))) }
        95 => { macro_rules! title1 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(title1!(x), id = title1![x])) }
        96 => { macro_rules! tr1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(tr1!(x), tr1!(x))) }
        97 => { macro_rules! u1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(u1!(x), u1![x])) }
        98 => { macro_rules! ul1 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = ul1!(x), b = ul1!(x))) }
        99 => { macro_rules! var1 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(var1!(x)), var1![x])) }
        100 => { macro_rules! video1 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = video1!(x), br!(), (video1!(x)))) }
        101 => { macro_rules! area1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ area1!(x) }, span!(id = area1![x]))) }
        102 => { macro_rules! base1 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", base1!(x), classes!(base1!(x)))) }
        103 => { macro_rules! br1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(br1!(x), z = br1![x])) }
        104 => { macro_rules! col1 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { col1!(x) } else { col1!(x) }))) }
        105 => { macro_rules! embed1 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(embed1!(x), id = embed1![x])) }
        106 => { macro_rules! hr1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(hr1!(x), hr1!(x))) }
        107 => { macro_rules! img1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(img1!(x), img1![x])) }
        108 => { macro_rules! input1 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = input1!(x), b = input1!(x))) }
        109 => { macro_rules! link1 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(link1!(x)), link1![x])) }
        110 => { macro_rules! meta1 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = meta1!(x), br!(), (meta1!(x)))) }
        111 => { macro_rules! param1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ param1!(x) }, span!(id = param1![x]))) }
        112 => { macro_rules! source1 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", source1!(x), classes!(source1!(x)))) }
        113 => { macro_rules! track1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(track1!(x), z = track1![x])) }
        114 => { macro_rules! wbr1 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { wbr1!(x) } else { wbr1!(x) }))) }
        115 => { macro_rules! frag1 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(frag1!(x), id = frag1![x])) }
        116 => { macro_rules! classes1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(classes1!(x), classes1!(x))) }
        117 => { macro_rules! bool1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(bool1!(x), bool1![x])) }
        118 => { macro_rules! frag_match1 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = frag_match1!(x), b = frag_match1!(x))) }
        119 => { macro_rules! iter1 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(iter1!(x)), iter1![x])) }
        _ => { macro_rules! raw1 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = raw1!(x), br!(), (raw1!(x)))) } } }
    h_18_near06(b) { let x = t(1); let k = bool_(); match choose(121) { 0 => { macro_rules! my_a { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ my_a!(x) }, span!(id = my_a!(x)))) }
        1 => { macro_rules! my_abbr { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", my_abbr!(x), classes!(my_abbr![x]))) }
        2 => { macro_rules! my_address { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(my_address!(x), z = my_address!(x))) }
        3 => { macro_rules! my_article { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { my_article!(x) } else { my_article![x] }))) }
        4 => { macro_rules! my_aside { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(my_aside!(x), id = my_aside!(x))) }
        5 => { macro_rules! my_audio { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(my_audio!(x), my_audio![x])) }
        6 => { macro_rules! my_b { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(my_b!(x), my_b!(x))) }
        7 => { macro_rules! my_bdi { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = my_bdi!(x), b = my_bdi![x])) }
        8 => { macro_rules! my_bdo { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(my_bdo!(x)), my_bdo!(x))) }
        9 => { macro_rules! my_blockquote { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = my_blockquote!(x), br!(), (my_blockquote![x]))) }
        10 => { macro_rules! my_body { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ my_body!(x) }, span!(id = my_body!(x)))) }
        11 => { macro_rules! my_button { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", my_button!(x), classes!(my_button![x]))) }
        12 => { macro_rules! my_canvas { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(my_canvas!(x), z = my_canvas!(x))) }
        13 => { macro_rules! my_caption { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { my_caption!(x) } else { my_caption![x] }))) }
        14 => { macro_rules! my_cite { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(my_cite!(x), id = my_cite!(x))) }
        15 => { macro_rules! my_code { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(my_code!(x), my_code![x])) }
        16 => { macro_rules! my_colgroup { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(my_colgroup!(x), my_colgroup!(x))) }
        17 => { macro_rules! my_data { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = my_data!(x), b = my_data![x])) }
        18 => { macro_rules! my_datalist { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(my_datalist!(x)), my_datalist!(x))) }
        19 => { macro_rules! my_dd { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = my_dd!(x), br!(), (my_dd![x]))) }
        20 => { macro_rules! my_del { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ my_del!(x) }, span!(id = my_del!(x)))) }
        21 => { macro_rules! my_details { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", my_details!(x), classes!(my_details![x]))) }
        22 => { macro_rules! my_dfn { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(my_dfn!(x), z = my_dfn!(x))) }
        23 => { macro_rules! my_dialog { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { my_dialog!(x) } else { my_dialog![x] }))) }
        24 => { macro_rules! my_div { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(my_div!(x), id = my_div!(x))) }
        25 => { macro_rules! my_dl { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(my_dl!(x), my_dl![x])) }
        26 => { macro_rules! my_dt { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(my_dt!(x), my_dt!(x))) }
        27 => { macro_rules! my_em { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = my_em!(x), b = my_em![x])) }
        28 => { macro_rules! my_fieldset { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(my_fieldset!(x)), my_fieldset!(x))) }
        29 => { macro_rules! my_figcaption { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = my_figcaption!(x), br!(), (my_figcaption![x]))) }
        30 => { macro_rules! my_figure { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ my_figure!(x) }, span!(id = my_figure!(x)))) }
        31 => { macro_rules! my_footer { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", my_footer!(x), classes!(my_footer![x]))) }
        32 => { macro_rules! my_form { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(my_form!(x), z = my_form!(x))) }
        33 => { macro_rules! my_h1 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { my_h1!(x) } else { my_h1![x] }))) }
        34 => { macro_rules! my_h2 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(my_h2!(x), id = my_h2!(x))) }
        35 => { macro_rules! my_h3 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(my_h3!(x), my_h3![x])) }
        36 => { macro_rules! my_h4 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(my_h4!(x), my_h4!(x))) }
        37 => { macro_rules! my_h5 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = my_h5!(x), b = my_h5![x])) }
        38 => { macro_rules! my_h6 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(my_h6!(x)), my_h6!(x))) }
        39 => { macro_rules! my_head { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = my_head!(x), br!(), (my_head![x]))) }
        40 => { macro_rules! my_header { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ my_header!(x) }, span!(id = my_header!(x)))) }
        41 => { macro_rules! my_hgroup { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", my_hgroup!(x), classes!(my_hgroup![x]))) }
        42 => { macro_rules! my_html { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(my_html!(x), z = my_html!(x))) }
        43 => { macro_rules! my_i { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { my_i!(x) } else { my_i![x] }))) }
        44 => { macro_rules! my_iframe { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(my_iframe!(x), id = my_iframe!(x))) }
        45 => { macro_rules! my_ins { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(my_ins!(x), my_ins![x])) }
        46 => { macro_rules! my_kbd { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(my_kbd!(x), my_kbd!(x))) }
        47 => { macro_rules! my_label { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = my_label!(x), b = my_label![x])) }
        48 => { macro_rules! my_legend { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(my_legend!(x)), my_legend!(x))) }
        49 => { macro_rules! my_li { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = my_li!(x), br!(), (my_li![x]))) }
        50 => { macro_rules! my_main { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ my_main!(x) }, span!(id = my_main!(x)))) }
        51 => { macro_rules! my_map { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", my_map!(x), classes!(my_map![x]))) }
        52 => { macro_rules! my_mark { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(my_mark!(x), z = my_mark!(x))) }
        53 => { macro_rules! my_menu { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { my_menu!(x) } else { my_menu![x] }))) }
        54 => { macro_rules! my_menuitem { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(my_menuitem!(x), id = my_menuitem!(x))) }
        55 => { macro_rules! my_meter { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(my_meter!(x), my_meter![x])) }
        56 => { macro_rules! my_nav { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(my_nav!(x), my_nav!(x))) }
        57 => { macro_rules! my_noscript { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = my_noscript!(x), b = my_noscript![x])) }
        58 => { macro_rules! my_object { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(my_object!(x)), my_object!(x))) }
        59 => { macro_rules! my_ol { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = my_ol!(x), br!(), (my_ol![x]))) }
        60 => { macro_rules! my_optgroup { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ my_optgroup!(x) }, span!(id = my_optgroup!(x)))) }
        61 => { macro_rules! my_option { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", my_option!(x), classes!(my_option![x]))) }
        62 => { macro_rules! my_output { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(my_output!(x), z = my_output!(x))) }
        63 => { macro_rules! my_p { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { my_p!(x) } else { my_p![x] }))) }
        64 => { macro_rules! my_picture { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(my_picture!(x), id = my_picture!(x))) }
        65 => { macro_rules! my_pre { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(my_pre!(x), my_pre![x])) }
        66 => { macro_rules! my_progress { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(my_progress!(x), my_progress!(x))) }
        67 => { macro_rules! my_q { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = my_q!(x), b = my_q![x])) }
        68 => { macro_rules! my_rb { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(my_rb!(x)), my_rb!(x))) }
        69 => { macro_rules! my_rp { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = my_rp!(x), br!(), (my_rp![x]))) }
        70 => { macro_rules! my_rt { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ my_rt!(x) }, span!(id = my_rt!(x)))) }
        71 => { macro_rules! my_rtc { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", my_rtc!(x), classes!(my_rtc![x]))) }
        72 => { macro_rules! my_ruby { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(my_ruby!(x), z = my_ruby!(x))) }
        73 => { macro_rules! my_s { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { my_s!(x) } else { my_s![x] }))) }
        74 => { macro_rules! my_samp { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(my_samp!(x), id = my_samp!(x))) }
        75 => { macro_rules! my_script { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(my_script!(x), my_script![x])) }
        76 => { macro_rules! my_section { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(my_section!(x), my_section!(x))) }
        77 => { macro_rules! my_select { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = my_select!(x), b = my_select![x])) }
        78 => { macro_rules! my_slot { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(my_slot!(x)), my_slot!(x))) }
        79 => { macro_rules! my_small { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = my_small!(x), br!(), (my_small![x]))) }
        80 => { macro_rules! my_span { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ my_span!(x) }, span!(id = my_span!(x)))) }
        81 => { macro_rules! my_strong { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", my_strong!(x), classes!(my_strong![x]))) }
        82 => { macro_rules! my_style { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(my_style!(x), z = my_style!(x))) }
        83 => { macro_rules! my_sub { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { my_sub!(x) } else { my_sub![x] }))) }
        84 => { macro_rules! my_summary { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(my_summary!(x), id = my_summary!(x))) }
        85 => { macro_rules! my_sup { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(my_sup!(x), my_sup![x])) }
        86 => { macro_rules! my_table { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(my_table!(x), my_table!(x))) }
        87 => { macro_rules! my_tbody { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = my_tbody!(x), b = my_tbody![x])) }
        88 => { macro_rules! my_td { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(my_td!(x)), my_td!(x))) }
        89 => { macro_rules! my_template { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = my_template!(x), br!(), (my_template![x]))) }
        90 => { macro_rules! my_textarea { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ my_textarea!(x) }, span!(id = my_textarea!(x)))) }
        91 => { macro_rules! my_tfoot { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", my_tfoot!(x), classes!(my_tfoot![x]))) }
        92 => { macro_rules! my_th { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(my_th!(x), z = my_th!(x))) }
        93 => { macro_rules! my_thead { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { my_thead!(x) } else { my_thead![x] }))) }
        94 => { macro_rules! my_time { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(my_time!(x), id = my_time!(x))) }
        95 => { macro_rules! my_title { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(my_title!(x), my_title![x])) }
        96 => { macro_rules! my_tr { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(my_tr!(x), my_tr!(x))) }
        97 => { macro_rules! my_u { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = my_u!(x), b = my_u![x])) }
        98 => { macro_rules! my_ul { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(my_ul!(x)), my_ul!(x))) }
        99 => { macro_rules! my_var { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = my_var!(x), br!(), (my_var![x]))) }
        100 => { macro_rules! my_video { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ my_video!(x) }, span!(id = my_video!(x)))) }
        101 => { macro_rules! my_area { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", my_area!(x), classes!(my_area![x]))) }
        102 => { macro_rules! my_base { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(my_base!(x), z = my_base!(x))) }
        103 => { macro_rules! my_br { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { my_br!(x) } else { my_br![x] }))) }
        104 => { macro_rules! my_col { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(my_col!(x), id = my_col!(x))) }
        105 => { macro_rules! my_embed { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(my_embed!(x), my_embed![x])) }
        106 => { macro_rules! my_hr { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(my_hr!(x), my_hr!(x))) }
        107 => { macro_rules! my_img { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = my_img!(x), b = my_img![x])) }
        108 => { macro_rules! my_input { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(my_input!(x)), my_input!(x))) }
        109 => { macro_rules! my_link { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = my_link!(x), br!(), (my_link![x]))) }
        110 => { macro_rules! my_meta { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ my_meta!(x) }, span!(id = my_meta!(x)))) }
        111 => { macro_rules! my_param { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", my_param!(x), classes!(my_param![x]))) }
        112 => { macro_rules! my_source { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(my_source!(x), z = my_source!(x))) }
        113 => { macro_rules! my_track { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { my_track!(x) } else { my_track![x] }))) }
        114 => { macro_rules! my_wbr { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(my_wbr!(x), id = my_wbr!(x))) }
        115 => { macro_rules! my_frag { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(my_frag!(x), my_frag![x])) }
        116 => { macro_rules! my_classes { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(my_classes!(x), my_classes!(x))) }
        117 => { macro_rules! my_bool { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = my_bool!(x), b = my_bool![x])) }
        118 => { macro_rules! my_frag_match { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(my_frag_match!(x)), my_frag_match!(x))) }
        119 => { macro_rules! my_iter { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = my_iter!(x), br!(), (my_iter![x]))) }
        _ => { macro_rules! my_raw { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ my_raw!(x) }, span!(id = my_raw!(x)))) } } }
    h_18_near07(b) { let x = t(1); let k = bool_(); match choose(95) { 0 => { macro_rules! abb { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(abb!(x), z = abb![x])) }
        1 => { macro_rules! addres { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { addres!(x) } else { addres!(x) }))) }
        2 => { macro_rules! articl { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(articl!(x), id = articl![x])) }
        3 => { macro_rules! asid { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(asid!(x), asid!(x))) }
        4 => { macro_rules! audi { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(audi!(x), audi![x])) }
        5 => { macro_rules! bd { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(bd!(x)), bd![x])) }
        6 => { macro_rules! blockquot { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ blockquot!(x) }, span!(id = blockquot![x]))) }
        7 => { macro_rules! bod { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", bod!(x), classes!(bod!(x)))) }
        8 => { macro_rules! butto { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(butto!(x), z = butto![x])) }
        9 => { macro_rules! canva { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { canva!(x) } else { canva!(x) }))) }
        10 => { macro_rules! captio { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(captio!(x), id = captio![x])) }
        11 => { macro_rules! cit { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(cit!(x), cit!(x))) }
        12 => { macro_rules! cod { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(cod!(x), cod![x])) }
        13 => { macro_rules! colgrou { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = colgrou!(x), b = colgrou!(x))) }
        14 => { macro_rules! dat { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(dat!(x)), dat![x])) }
        15 => { macro_rules! datalis { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = datalis!(x), br!(), (datalis!(x)))) }
        16 => { macro_rules! d { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ d!(x) }, span!(id = d![x]))) }
        17 => { macro_rules! de { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", de!(x), classes!(de!(x)))) }
        18 => { macro_rules! detail { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(detail!(x), z = detail![x])) }
        19 => { macro_rules! df { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { df!(x) } else { df!(x) }))) }
        20 => { macro_rules! dialo { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(dialo!(x), id = dialo![x])) }
        21 => { macro_rules! di { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(di!(x), di!(x))) }
        22 => { macro_rules! e { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(e!(x)), e![x])) }
        23 => { macro_rules! fieldse { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = fieldse!(x), br!(), (fieldse!(x)))) }
        24 => { macro_rules! figcaptio { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ figcaptio!(x) }, span!(id = figcaptio![x]))) }
        25 => { macro_rules! figur { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", figur!(x), classes!(figur!(x)))) }
        26 => { macro_rules! foote { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(foote!(x), z = foote![x])) }
        27 => { macro_rules! h { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(h!(x), id = h![x])) }
        28 => { macro_rules! hea { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ hea!(x) }, span!(id = hea![x]))) }
        29 => { macro_rules! heade { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", heade!(x), classes!(heade!(x)))) }
        30 => { macro_rules! hgrou { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(hgrou!(x), z = hgrou![x])) }
        31 => { macro_rules! htm { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { htm!(x) } else { htm!(x) }))) }
        32 => { macro_rules! ifram { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(ifram!(x), ifram!(x))) }
        33 => { macro_rules! kb { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = kb!(x), b = kb!(x))) }
        34 => { macro_rules! labe { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(labe!(x)), labe![x])) }
        35 => { macro_rules! legen { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = legen!(x), br!(), (legen!(x)))) }
        36 => { macro_rules! l { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ l!(x) }, span!(id = l![x]))) }
        37 => { macro_rules! mai { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", mai!(x), classes!(mai!(x)))) }
        38 => { macro_rules! ma { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(ma!(x), z = ma![x])) }
        39 => { macro_rules! mar { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { mar!(x) } else { mar!(x) }))) }
        40 => { macro_rules! men { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(men!(x), id = men![x])) }
        41 => { macro_rules! menuite { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(menuite!(x), menuite!(x))) }
        42 => { macro_rules! mete { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(mete!(x), mete![x])) }
        43 => { macro_rules! na { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = na!(x), b = na!(x))) }
        44 => { macro_rules! noscrip { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(noscrip!(x)), noscrip![x])) }
        45 => { macro_rules! objec { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = objec!(x), br!(), (objec!(x)))) }
        46 => { macro_rules! o { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ o!(x) }, span!(id = o![x]))) }
        47 => { macro_rules! optgrou { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", optgrou!(x), classes!(optgrou!(x)))) }
        48 => { macro_rules! optio { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(optio!(x), z = optio![x])) }
        49 => { macro_rules! outpu { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { outpu!(x) } else { outpu!(x) }))) }
        50 => { macro_rules! pictur { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(pictur!(x), pictur!(x))) }
        51 => { macro_rules! pr { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(pr!(x), pr![x])) }
        52 => { macro_rules! progres { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = progres!(x), b = progres!(x))) }
        53 => { macro_rules! r { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = r!(x), br!(), (r!(x)))) }
        54 => { macro_rules! rub { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { rub!(x) } else { rub!(x) }))) }
        55 => { macro_rules! sam { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(sam!(x), sam!(x))) }
        56 => { macro_rules! scrip { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(scrip!(x), scrip![x])) }
        57 => { macro_rules! sectio { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = sectio!(x), b = sectio!(x))) }
        58 => { macro_rules! selec { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(selec!(x)), selec![x])) }
        59 => { macro_rules! slo { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = slo!(x), br!(), (slo!(x)))) }
        60 => { macro_rules! smal { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ smal!(x) }, span!(id = smal![x]))) }
        61 => { macro_rules! spa { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", spa!(x), classes!(spa!(x)))) }
        62 => { macro_rules! stron { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(stron!(x), z = stron![x])) }
        63 => { macro_rules! styl { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { styl!(x) } else { styl!(x) }))) }
        64 => { macro_rules! su { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(su!(x), id = su![x])) }
        65 => { macro_rules! summar { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(summar!(x), summar!(x))) }
        66 => { macro_rules! tabl { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = tabl!(x), b = tabl!(x))) }
        67 => { macro_rules! tbod { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(tbod!(x)), tbod![x])) }
        68 => { macro_rules! t { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = t!(x), br!(), (t!(x)))) }
        69 => { macro_rules! templat { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ templat!(x) }, span!(id = templat![x]))) }
        70 => { macro_rules! textare { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", textare!(x), classes!(textare!(x)))) }
        71 => { macro_rules! tfoo { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(tfoo!(x), z = tfoo![x])) }
        72 => { macro_rules! thea { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(thea!(x), id = thea![x])) }
        73 => { macro_rules! tim { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(tim!(x), tim!(x))) }
        74 => { macro_rules! titl { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(titl!(x), titl![x])) }
        75 => { macro_rules! va { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ va!(x) }, span!(id = va![x]))) }
        76 => { macro_rules! vide { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", vide!(x), classes!(vide!(x)))) }
        77 => { macro_rules! are { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(are!(x), z = are![x])) }
        78 => { macro_rules! bas { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { bas!(x) } else { bas!(x) }))) }
        79 => { macro_rules! co { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(co!(x), co!(x))) }
        80 => { macro_rules! embe { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(embe!(x), embe![x])) }
        81 => { macro_rules! im { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(im!(x)), im![x])) }
        82 => { macro_rules! inpu { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = inpu!(x), br!(), (inpu!(x)))) }
        83 => { macro_rules! lin { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ lin!(x) }, span!(id = lin![x]))) }
        84 => { macro_rules! met { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", met!(x), classes!(met!(x)))) }
        85 => { macro_rules! para { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(para!(x), z = para![x])) }
        86 => { macro_rules! sourc { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { sourc!(x) } else { sourc!(x) }))) }
        87 => { macro_rules! trac { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(trac!(x), id = trac![x])) }
        88 => { macro_rules! wb { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(wb!(x), wb!(x))) }
        89 => { macro_rules! fra { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(fra!(x), fra![x])) }
        90 => { macro_rules! classe { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = classe!(x), b = classe!(x))) }
        91 => { macro_rules! boo { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(boo!(x)), boo![x])) }
        92 => { macro_rules! frag_matc { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = frag_matc!(x), br!(), (frag_matc!(x)))) }
        93 => { macro_rules! ite { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ ite!(x) }, span!(id = ite![x]))) }
        _ => { macro_rules! ra { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", ra!(x), classes!(ra!(x)))) } } }
    h_18_near08(b) { let x = t(1); let k = bool_(); match choose(85) { 0 => { macro_rules! bbr { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { bbr!(x) } else { bbr![x] }))) }
        1 => { macro_rules! ddress { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(ddress!(x), id = ddress!(x))) }
        2 => { macro_rules! rticle { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(rticle!(x), rticle![x])) }
        3 => { macro_rules! side { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(side!(x), side!(x))) }
        4 => { macro_rules! udio { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = udio!(x), b = udio![x])) }
        5 => { macro_rules! lockquote { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", lockquote!(x), classes!(lockquote![x]))) }
        6 => { macro_rules! ody { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(ody!(x), z = ody!(x))) }
        7 => { macro_rules! utton { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { utton!(x) } else { utton![x] }))) }
        8 => { macro_rules! anvas { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(anvas!(x), id = anvas!(x))) }
        9 => { macro_rules! aption { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(aption!(x), aption![x])) }
        10 => { macro_rules! ode { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = ode!(x), b = ode![x])) }
        11 => { macro_rules! olgroup { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(olgroup!(x)), olgroup!(x))) }
        12 => { macro_rules! ata { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = ata!(x), br!(), (ata![x]))) }
        13 => { macro_rules! atalist { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ atalist!(x) }, span!(id = atalist!(x)))) }
        14 => { macro_rules! el { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(el!(x), z = el!(x))) }
        15 => { macro_rules! etails { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { etails!(x) } else { etails![x] }))) }
        16 => { macro_rules! ialog { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(ialog!(x), ialog![x])) }
        17 => { macro_rules! iv { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(iv!(x), iv!(x))) }
        18 => { macro_rules! m { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = m!(x), br!(), (m![x]))) }
        19 => { macro_rules! ieldset { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ ieldset!(x) }, span!(id = ieldset!(x)))) }
        20 => { macro_rules! igcaption { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", igcaption!(x), classes!(igcaption![x]))) }
        21 => { macro_rules! igure { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(igure!(x), z = igure!(x))) }
        22 => { macro_rules! ooter { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { ooter!(x) } else { ooter![x] }))) }
        23 => { macro_rules! orm { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(orm!(x), id = orm!(x))) }
        24 => { macro_rules! ead { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", ead!(x), classes!(ead![x]))) }
        25 => { macro_rules! eader { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(eader!(x), z = eader!(x))) }
        26 => { macro_rules! group { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { group!(x) } else { group![x] }))) }
        27 => { macro_rules! tml { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(tml!(x), id = tml!(x))) }
        28 => { macro_rules! frame { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(frame!(x), frame!(x))) }
        29 => { macro_rules! ns { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = ns!(x), b = ns![x])) }
        30 => { macro_rules! abel { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = abel!(x), br!(), (abel![x]))) }
        31 => { macro_rules! egend { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ egend!(x) }, span!(id = egend!(x)))) }
        32 => { macro_rules! ain { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(ain!(x), z = ain!(x))) }
        33 => { macro_rules! ap { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { ap!(x) } else { ap![x] }))) }
        34 => { macro_rules! ark { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(ark!(x), id = ark!(x))) }
        35 => { macro_rules! enu { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(enu!(x), enu![x])) }
        36 => { macro_rules! enuitem { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(enuitem!(x), enuitem!(x))) }
        37 => { macro_rules! eter { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = eter!(x), b = eter![x])) }
        38 => { macro_rules! av { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(av!(x)), av!(x))) }
        39 => { macro_rules! oscript { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = oscript!(x), br!(), (oscript![x]))) }
        40 => { macro_rules! bject { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ bject!(x) }, span!(id = bject!(x)))) }
        41 => { macro_rules! ptgroup { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(ptgroup!(x), z = ptgroup!(x))) }
        42 => { macro_rules! ption { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { ption!(x) } else { ption![x] }))) }
        43 => { macro_rules! utput { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(utput!(x), id = utput!(x))) }
        44 => { macro_rules! icture { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(icture!(x), icture!(x))) }
        45 => { macro_rules! re { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = re!(x), b = re![x])) }
        46 => { macro_rules! rogress { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(rogress!(x)), rogress!(x))) }
        47 => { macro_rules! tc { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { tc!(x) } else { tc![x] }))) }
        48 => { macro_rules! uby { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(uby!(x), id = uby!(x))) }
        49 => { macro_rules! amp { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(amp!(x), amp!(x))) }
        50 => { macro_rules! cript { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = cript!(x), b = cript![x])) }
        51 => { macro_rules! ection { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(ection!(x)), ection!(x))) }
        52 => { macro_rules! elect { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = elect!(x), br!(), (elect![x]))) }
        53 => { macro_rules! lot { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ lot!(x) }, span!(id = lot!(x)))) }
        54 => { macro_rules! mall { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", mall!(x), classes!(mall![x]))) }
        55 => { macro_rules! pan { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(pan!(x), z = pan!(x))) }
        56 => { macro_rules! trong { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { trong!(x) } else { trong![x] }))) }
        57 => { macro_rules! tyle { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(tyle!(x), id = tyle!(x))) }
        58 => { macro_rules! ub { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(ub!(x), ub![x])) }
        59 => { macro_rules! ummary { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(ummary!(x), ummary!(x))) }
        60 => { macro_rules! up { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = up!(x), b = up![x])) }
        61 => { macro_rules! able { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(able!(x)), able!(x))) }
        62 => { macro_rules! emplate { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", emplate!(x), classes!(emplate![x]))) }
        63 => { macro_rules! extarea { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(extarea!(x), z = extarea!(x))) }
        64 => { macro_rules! foot { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { foot!(x) } else { foot![x] }))) }
        65 => { macro_rules! ime { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(ime!(x), ime!(x))) }
        66 => { macro_rules! itle { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = itle!(x), b = itle![x])) }
        67 => { macro_rules! ar { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", ar!(x), classes!(ar![x]))) }
        68 => { macro_rules! ideo { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(ideo!(x), z = ideo!(x))) }
        69 => { macro_rules! rea { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { rea!(x) } else { rea![x] }))) }
        70 => { macro_rules! ase { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(ase!(x), id = ase!(x))) }
        71 => { macro_rules! mbed { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = mbed!(x), b = mbed![x])) }
        72 => { macro_rules! mg { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = mg!(x), br!(), (mg![x]))) }
        73 => { macro_rules! nput { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ nput!(x) }, span!(id = nput!(x)))) }
        74 => { macro_rules! ink { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", ink!(x), classes!(ink![x]))) }
        75 => { macro_rules! eta { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(eta!(x), z = eta!(x))) }
        76 => { macro_rules! aram { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { aram!(x) } else { aram![x] }))) }
        77 => { macro_rules! ource { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(ource!(x), id = ource!(x))) }
        78 => { macro_rules! rack { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(rack!(x), rack![x])) }
        79 => { macro_rules! rag { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = rag!(x), b = rag![x])) }
        80 => { macro_rules! lasses { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(lasses!(x)), lasses!(x))) }
        81 => { macro_rules! ool { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = ool!(x), br!(), (ool![x]))) }
        82 => { macro_rules! rag_match { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ rag_match!(x) }, span!(id = rag_match!(x)))) }
        83 => { macro_rules! ter { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", ter!(x), classes!(ter![x]))) }
        _ => { macro_rules! aw { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(aw!(x), z = aw!(x))) } } }
    h_18_near09(b) { let x = t(1); let k = bool_(); match choose(120) { 0 => { macro_rules! aa { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { aa!(x) } else { aa!(x) }))) }
        1 => { macro_rules! abbrabbr { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(abbrabbr!(x), id = abbrabbr![x])) }
        2 => { macro_rules! addressaddress { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(addressaddress!(x), addressaddress!(x))) }
        3 => { macro_rules! articlearticle { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(articlearticle!(x), articlearticle![x])) }
        4 => { macro_rules! asideaside { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = asideaside!(x), b = asideaside!(x))) }
        5 => { macro_rules! audioaudio { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(audioaudio!(x)), audioaudio![x])) }
        6 => { macro_rules! bb { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = bb!(x), br!(), (bb!(x)))) }
        7 => { macro_rules! bdibdi { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ bdibdi!(x) }, span!(id = bdibdi![x]))) }
        8 => { macro_rules! bdobdo { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", bdobdo!(x), classes!(bdobdo!(x)))) }
        9 => { macro_rules! blockquoteblockquote { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(blockquoteblockquote!(x), z = blockquoteblockquote![x])) }
        10 => { macro_rules! bodybody { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { bodybody!(x) } else { bodybody!(x) }))) }
        11 => { macro_rules! buttonbutton { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(buttonbutton!(x), id = buttonbutton![x])) }
        12 => { macro_rules! canvascanvas { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(canvascanvas!(x), canvascanvas!(x))) }
        13 => { macro_rules! captioncaption { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(captioncaption!(x), captioncaption![x])) }
        14 => { macro_rules! citecite { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = citecite!(x), b = citecite!(x))) }
        15 => { macro_rules! codecode { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(codecode!(x)), codecode![x])) }
        16 => { macro_rules! colgroupcolgroup { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = colgroupcolgroup!(x), br!(), (colgroupcolgroup!(x)))) }
        17 => { macro_rules! datadata { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ datadata!(x) }, span!(id = datadata![x]))) }
        18 => { macro_rules! datalistdatalist { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", datalistdatalist!(x), classes!(datalistdatalist!(x)))) }
        19 => { macro_rules! dddd { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(dddd!(x), z = dddd![x])) }
        20 => { macro_rules! deldel { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { deldel!(x) } else { deldel!(x) }))) }
        21 => { macro_rules! detailsdetails { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(detailsdetails!(x), id = detailsdetails![x])) }
        22 => { macro_rules! dfndfn { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(dfndfn!(x), dfndfn!(x))) }
        23 => { macro_rules! dialogdialog { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(dialogdialog!(x), dialogdialog![x])) }
        24 => { macro_rules! divdiv { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = divdiv!(x), b = divdiv!(x))) }
        25 => { macro_rules! dldl { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(dldl!(x)), dldl![x])) }
        26 => { macro_rules! dtdt { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = dtdt!(x), br!(), (dtdt!(x)))) }
        27 => { macro_rules! emem { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ emem!(x) }, span!(id = emem![x]))) }
        28 => { macro_rules! fieldsetfieldset { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", fieldsetfieldset!(x), classes!(fieldsetfieldset!(x)))) }
        29 => { macro_rules! figcaptionfigcaption { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(figcaptionfigcaption!(x), z = figcaptionfigcaption![x])) }
        30 => { macro_rules! figurefigure { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { figurefigure!(x) } else { figurefigure!(x) }))) }
        31 => { macro_rules! footerfooter { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(footerfooter!(x), id = footerfooter![x])) }
        32 => { macro_rules! formform { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(formform!(x), formform!(x))) }
        33 => { macro_rules! h1h1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(h1h1!(x), h1h1![x])) }
        34 => { macro_rules! h2h2 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = h2h2!(x), b = h2h2!(x))) }
        35 => { macro_rules! h3h3 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(h3h3!(x)), h3h3![x])) }
        36 => { macro_rules! h4h4 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = h4h4!(x), br!(), (h4h4!(x)))) }
        37 => { macro_rules! h5h5 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ h5h5!(x) }, span!(id = h5h5![x]))) }
        38 => { macro_rules! h6h6 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", h6h6!(x), classes!(h6h6!(x)))) }
        39 => { macro_rules! headhead { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(headhead!(x), z = headhead![x])) }
        40 => { macro_rules! headerheader { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { headerheader!(x) } else { headerheader!(x) }))) }
        41 => { macro_rules! hgrouphgroup { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(hgrouphgroup!(x), id = hgrouphgroup![x])) }
        42 => { macro_rules! htmlhtml { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(htmlhtml!(x), htmlhtml!(x))) }
        43 => { macro_rules! ii { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(ii!(x), ii![x])) }
        44 => { macro_rules! iframeiframe { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = iframeiframe!(x), b = iframeiframe!(x))) }
        45 => { macro_rules! insins { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(insins!(x)), insins![x])) }
        46 => { macro_rules! kbdkbd { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = kbdkbd!(x), br!(), (kbdkbd!(x)))) }
        47 => { macro_rules! labellabel { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ labellabel!(x) }, span!(id = labellabel![x]))) }
        48 => { macro_rules! legendlegend { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", legendlegend!(x), classes!(legendlegend!(x)))) }
        49 => { macro_rules! lili { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(lili!(x), z = lili![x])) }
        50 => { macro_rules! mainmain { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { mainmain!(x) } else { mainmain!(x) }))) }
        51 => { macro_rules! mapmap { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(mapmap!(x), id = mapmap![x])) }
        52 => { macro_rules! markmark { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(markmark!(x), markmark!(x))) }
        53 => { macro_rules! menumenu { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(menumenu!(x), menumenu![x])) }
        54 => { macro_rules! menuitemmenuitem { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = menuitemmenuitem!(x), b = menuitemmenuitem!(x))) }
        55 => { macro_rules! metermeter { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(metermeter!(x)), metermeter![x])) }
        56 => { macro_rules! navnav { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = navnav!(x), br!(), (navnav!(x)))) }
        57 => { macro_rules! noscriptnoscript { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ noscriptnoscript!(x) }, span!(id = noscriptnoscript![x]))) }
        58 => { macro_rules! objectobject { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", objectobject!(x), classes!(objectobject!(x)))) }
        59 => { macro_rules! olol { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(olol!(x), z = olol![x])) }
        60 => { macro_rules! optgroupoptgroup { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { optgroupoptgroup!(x) } else { optgroupoptgroup!(x) }))) }
        61 => { macro_rules! optionoption { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(optionoption!(x), id = optionoption![x])) }
        62 => { macro_rules! outputoutput { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(outputoutput!(x), outputoutput!(x))) }
        63 => { macro_rules! pp { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(pp!(x), pp![x])) }
        64 => { macro_rules! picturepicture { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = picturepicture!(x), b = picturepicture!(x))) }
        65 => { macro_rules! prepre { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(prepre!(x)), prepre![x])) }
        66 => { macro_rules! progressprogress { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = progressprogress!(x), br!(), (progressprogress!(x)))) }
        67 => { macro_rules! qq { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ qq!(x) }, span!(id = qq![x]))) }
        68 => { macro_rules! rbrb { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", rbrb!(x), classes!(rbrb!(x)))) }
        69 => { macro_rules! rprp { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(rprp!(x), z = rprp![x])) }
        70 => { macro_rules! rtrt { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { rtrt!(x) } else { rtrt!(x) }))) }
        71 => { macro_rules! rtcrtc { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(rtcrtc!(x), id = rtcrtc![x])) }
        72 => { macro_rules! rubyruby { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(rubyruby!(x), rubyruby!(x))) }
        73 => { macro_rules! sampsamp { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = sampsamp!(x), b = sampsamp!(x))) }
        74 => { macro_rules! scriptscript { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(scriptscript!(x)), scriptscript![x])) }
        75 => { macro_rules! sectionsection { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = sectionsection!(x), br!(), (sectionsection!(x)))) }
        76 => { macro_rules! selectselect { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ selectselect!(x) }, span!(id = selectselect![x]))) }
        77 => { macro_rules! slotslot { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", slotslot!(x), classes!(slotslot!(x)))) }
        78 => { macro_rules! smallsmall { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(smallsmall!(x), z = smallsmall![x])) }
        79 => { macro_rules! spanspan { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { spanspan!(x) } else { spanspan!(x) }))) }
        80 => { macro_rules! strongstrong { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(strongstrong!(x), id = strongstrong![x])) }
        81 => { macro_rules! stylestyle { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(stylestyle!(x), stylestyle!(x))) }
        82 => { macro_rules! subsub { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(subsub!(x), subsub![x])) }
        83 => { macro_rules! summarysummary { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = summarysummary!(x), b = summarysummary!(x))) }
        84 => { macro_rules! supsup { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(supsup!(x)), supsup![x])) }
        85 => { macro_rules! tabletable { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = tabletable!(x), br!(), (tabletable!(x)))) }
        86 => { macro_rules! tbodytbody { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ tbodytbody!(x) }, span!(id = tbodytbody![x]))) }
        87 => { macro_rules! tdtd { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", tdtd!(x), classes!(tdtd!(x)))) }
        88 => { macro_rules! templatetemplate { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(templatetemplate!(x), z = templatetemplate![x])) }
        89 => { macro_rules! textareatextarea { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { textareatextarea!(x) } else { textareatextarea!(x) }))) }
        90 => { macro_rules! tfoottfoot { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(tfoottfoot!(x), id = tfoottfoot![x])) }
        91 => { macro_rules! thth { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(thth!(x), thth!(x))) }
        92 => { macro_rules! theadthead { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(theadthead!(x), theadthead![x])) }
        93 => { macro_rules! timetime { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = timetime!(x), b = timetime!(x))) }
        94 => { macro_rules! titletitle { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(titletitle!(x)), titletitle![x])) }
        95 => { macro_rules! trtr { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = trtr!(x), br!(), (trtr!(x)))) }
        96 => { macro_rules! uu { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ uu!(x) }, span!(id = uu![x]))) }
        97 => { macro_rules! ulul { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", ulul!(x), classes!(ulul!(x)))) }
        98 => { macro_rules! varvar { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(varvar!(x), z = varvar![x])) }
        99 => { macro_rules! videovideo { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { videovideo!(x) } else { videovideo!(x) }))) }
        100 => { macro_rules! areaarea { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(areaarea!(x), id = areaarea![x])) }
        101 => { macro_rules! basebase { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(basebase!(x), basebase!(x))) }
        102 => { macro_rules! brbr { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(brbr!(x), brbr![x])) }
        103 => { macro_rules! colcol { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = colcol!(x), b = colcol!(x))) }
        104 => { macro_rules! embedembed { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(embedembed!(x)), embedembed![x])) }
        105 => { macro_rules! hrhr { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = hrhr!(x), br!(), (hrhr!(x)))) }
        106 => { macro_rules! imgimg { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ imgimg!(x) }, span!(id = imgimg![x]))) }
        107 => { macro_rules! inputinput { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", inputinput!(x), classes!(inputinput!(x)))) }
        108 => { macro_rules! linklink { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(linklink!(x), z = linklink![x])) }
        109 => { macro_rules! metameta { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { metameta!(x) } else { metameta!(x) }))) }
        110 => { macro_rules! paramparam { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(paramparam!(x), id = paramparam![x])) }
        111 => { macro_rules! sourcesource { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(sourcesource!(x), sourcesource!(x))) }
        112 => { macro_rules! tracktrack { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(tracktrack!(x), tracktrack![x])) }
        113 => { macro_rules! wbrwbr { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = wbrwbr!(x), b = wbrwbr!(x))) }
        114 => { macro_rules! fragfrag { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(fragfrag!(x)), fragfrag![x])) }
        115 => { macro_rules! classesclasses { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = classesclasses!(x), br!(), (classesclasses!(x)))) }
        116 => { macro_rules! boolbool { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ boolbool!(x) }, span!(id = boolbool![x]))) }
        117 => { macro_rules! frag_matchfrag_match { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", frag_matchfrag_match!(x), classes!(frag_matchfrag_match!(x)))) }
        118 => { macro_rules! iteriter { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(iteriter!(x), z = iteriter![x])) }
        _ => { macro_rules! rawraw { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { rawraw!(x) } else { rawraw!(x) }))) } } }
    h_18_near10(b) { let x = t(1); let k = bool_(); match choose(100) { 0 => { macro_rules! rbba { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(rbba!(x), rbba![x])) }
        1 => { macro_rules! sserdda { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(sserdda!(x), sserdda!(x))) }
        2 => { macro_rules! elcitra { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = elcitra!(x), b = elcitra![x])) }
        3 => { macro_rules! edisa { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(edisa!(x)), edisa!(x))) }
        4 => { macro_rules! oidua { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = oidua!(x), br!(), (oidua![x]))) }
        5 => { macro_rules! idb { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", idb!(x), classes!(idb![x]))) }
        6 => { macro_rules! odb { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(odb!(x), z = odb!(x))) }
        7 => { macro_rules! etouqkcolb { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { etouqkcolb!(x) } else { etouqkcolb![x] }))) }
        8 => { macro_rules! ydob { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(ydob!(x), id = ydob!(x))) }
        9 => { macro_rules! nottub { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(nottub!(x), nottub![x])) }
        10 => { macro_rules! savnac { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(savnac!(x), savnac!(x))) }
        11 => { macro_rules! noitpac { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = noitpac!(x), b = noitpac![x])) }
        12 => { macro_rules! etic { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(etic!(x)), etic!(x))) }
        13 => { macro_rules! edoc { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = edoc!(x), br!(), (edoc![x]))) }
        14 => { macro_rules! puorgloc { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ puorgloc!(x) }, span!(id = puorgloc!(x)))) }
        15 => { macro_rules! atad { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", atad!(x), classes!(atad![x]))) }
        16 => { macro_rules! tsilatad { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(tsilatad!(x), z = tsilatad!(x))) }
        17 => { macro_rules! led { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(led!(x), id = led!(x))) }
        18 => { macro_rules! sliated { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(sliated!(x), sliated![x])) }
        19 => { macro_rules! nfd { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(nfd!(x), nfd!(x))) }
        20 => { macro_rules! golaid { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = golaid!(x), b = golaid![x])) }
        21 => { macro_rules! vid { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(vid!(x)), vid!(x))) }
        22 => { macro_rules! ld { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = ld!(x), br!(), (ld![x]))) }
        23 => { macro_rules! me { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", me!(x), classes!(me![x]))) }
        24 => { macro_rules! tesdleif { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(tesdleif!(x), z = tesdleif!(x))) }
        25 => { macro_rules! noitpacgif { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { noitpacgif!(x) } else { noitpacgif![x] }))) }
        26 => { macro_rules! erugif { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(erugif!(x), id = erugif!(x))) }
        27 => { macro_rules! retoof { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(retoof!(x), retoof![x])) }
        28 => { macro_rules! mrof { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(mrof!(x), mrof!(x))) }
        29 => { macro_rules! daeh { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { daeh!(x) } else { daeh![x] }))) }
        30 => { macro_rules! redaeh { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(redaeh!(x), id = redaeh!(x))) }
        31 => { macro_rules! puorgh { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(puorgh!(x), puorgh![x])) }
        32 => { macro_rules! lmth { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(lmth!(x), lmth!(x))) }
        33 => { macro_rules! emarfi { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(emarfi!(x)), emarfi!(x))) }
        34 => { macro_rules! sni { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = sni!(x), br!(), (sni![x]))) }
        35 => { macro_rules! dbk { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ dbk!(x) }, span!(id = dbk!(x)))) }
        36 => { macro_rules! lebal { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", lebal!(x), classes!(lebal![x]))) }
        37 => { macro_rules! dnegel { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(dnegel!(x), z = dnegel!(x))) }
        38 => { macro_rules! il { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { il!(x) } else { il![x] }))) }
        39 => { macro_rules! niam { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(niam!(x), id = niam!(x))) }
        40 => { macro_rules! pam { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(pam!(x), pam![x])) }
        41 => { macro_rules! kram { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(kram!(x), kram!(x))) }
        42 => { macro_rules! unem { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = unem!(x), b = unem![x])) }
        43 => { macro_rules! metiunem { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(metiunem!(x)), metiunem!(x))) }
        44 => { macro_rules! retem { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = retem!(x), br!(), (retem![x]))) }
        45 => { macro_rules! van { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ van!(x) }, span!(id = van!(x)))) }
        46 => { macro_rules! tpircson { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", tpircson!(x), classes!(tpircson![x]))) }
        47 => { macro_rules! tcejbo { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(tcejbo!(x), z = tcejbo!(x))) }
        48 => { macro_rules! lo { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { lo!(x) } else { lo![x] }))) }
        49 => { macro_rules! puorgtpo { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(puorgtpo!(x), id = puorgtpo!(x))) }
        50 => { macro_rules! noitpo { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(noitpo!(x), noitpo![x])) }
        51 => { macro_rules! tuptuo { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(tuptuo!(x), tuptuo!(x))) }
        52 => { macro_rules! erutcip { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(erutcip!(x)), erutcip!(x))) }
        53 => { macro_rules! erp { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = erp!(x), br!(), (erp![x]))) }
        54 => { macro_rules! ssergorp { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ ssergorp!(x) }, span!(id = ssergorp!(x)))) }
        55 => { macro_rules! ctr { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(ctr!(x), ctr![x])) }
        56 => { macro_rules! ybur { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(ybur!(x), ybur!(x))) }
        57 => { macro_rules! pmas { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(pmas!(x)), pmas!(x))) }
        58 => { macro_rules! tpircs { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = tpircs!(x), br!(), (tpircs![x]))) }
        59 => { macro_rules! noitces { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ noitces!(x) }, span!(id = noitces!(x)))) }
        60 => { macro_rules! tceles { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", tceles!(x), classes!(tceles![x]))) }
        61 => { macro_rules! tols { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(tols!(x), z = tols!(x))) }
        62 => { macro_rules! llams { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { llams!(x) } else { llams![x] }))) }
        63 => { macro_rules! naps { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(naps!(x), id = naps!(x))) }
        64 => { macro_rules! gnorts { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(gnorts!(x), gnorts![x])) }
        65 => { macro_rules! elyts { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(elyts!(x), elyts!(x))) }
        66 => { macro_rules! bus { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = bus!(x), b = bus![x])) }
        67 => { macro_rules! yrammus { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(yrammus!(x)), yrammus!(x))) }
        68 => { macro_rules! pus { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = pus!(x), br!(), (pus![x]))) }
        69 => { macro_rules! elbat { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ elbat!(x) }, span!(id = elbat!(x)))) }
        70 => { macro_rules! ydobt { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", ydobt!(x), classes!(ydobt![x]))) }
        71 => { macro_rules! etalpmet { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { etalpmet!(x) } else { etalpmet![x] }))) }
        72 => { macro_rules! aeratxet { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(aeratxet!(x), id = aeratxet!(x))) }
        73 => { macro_rules! tooft { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(tooft!(x), tooft![x])) }
        74 => { macro_rules! ht { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(ht!(x), ht!(x))) }
        75 => { macro_rules! daeht { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = daeht!(x), b = daeht![x])) }
        76 => { macro_rules! emit { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(emit!(x)), emit!(x))) }
        77 => { macro_rules! eltit { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = eltit!(x), br!(), (eltit![x]))) }
        78 => { macro_rules! lu { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(lu!(x), z = lu!(x))) }
        79 => { macro_rules! rav { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { rav!(x) } else { rav![x] }))) }
        80 => { macro_rules! oediv { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(oediv!(x), id = oediv!(x))) }
        81 => { macro_rules! aera { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(aera!(x), aera![x])) }
        82 => { macro_rules! esab { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(esab!(x), esab!(x))) }
        83 => { macro_rules! loc { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(loc!(x)), loc!(x))) }
        84 => { macro_rules! debme { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = debme!(x), br!(), (debme![x]))) }
        85 => { macro_rules! rh { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ rh!(x) }, span!(id = rh!(x)))) }
        86 => { macro_rules! gmi { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", gmi!(x), classes!(gmi![x]))) }
        87 => { macro_rules! tupni { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(tupni!(x), z = tupni!(x))) }
        88 => { macro_rules! knil { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { knil!(x) } else { knil![x] }))) }
        89 => { macro_rules! atem { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(atem!(x), id = atem!(x))) }
        90 => { macro_rules! marap { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(marap!(x), marap![x])) }
        91 => { macro_rules! ecruos { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(ecruos!(x), ecruos!(x))) }
        92 => { macro_rules! kcart { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = kcart!(x), b = kcart![x])) }
        93 => { macro_rules! rbw { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(rbw!(x)), rbw!(x))) }
        94 => { macro_rules! garf { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = garf!(x), br!(), (garf![x]))) }
        95 => { macro_rules! sessalc { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ sessalc!(x) }, span!(id = sessalc!(x)))) }
        96 => { macro_rules! loob { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", loob!(x), classes!(loob![x]))) }
        97 => { macro_rules! hctam_garf { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(hctam_garf!(x), z = hctam_garf!(x))) }
        98 => { macro_rules! reti { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { reti!(x) } else { reti![x] }))) }
        _ => { macro_rules! war { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(war!(x), id = war!(x))) } } }
    h_18_near11(b) { let x = t(1); let k = bool_(); match choose(108) { 0 => { macro_rules! abbR { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(abbR!(x), abbR![x])) }
        1 => { macro_rules! addresS { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = addresS!(x), b = addresS!(x))) }
        2 => { macro_rules! articlE { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(articlE!(x)), articlE![x])) }
        3 => { macro_rules! asidE { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = asidE!(x), br!(), (asidE!(x)))) }
        4 => { macro_rules! audiO { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ audiO!(x) }, span!(id = audiO![x]))) }
        5 => { macro_rules! bdI { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(bdI!(x), z = bdI![x])) }
        6 => { macro_rules! bdO { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { bdO!(x) } else { bdO!(x) }))) }
        7 => { macro_rules! blockquotE { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(blockquotE!(x), id = blockquotE![x])) }
        8 => { macro_rules! bodY { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(bodY!(x), bodY!(x))) }
        9 => { macro_rules! buttoN { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(buttoN!(x), buttoN![x])) }
        10 => { macro_rules! canvaS { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = canvaS!(x), b = canvaS!(x))) }
        11 => { macro_rules! captioN { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(captioN!(x)), captioN![x])) }
        12 => { macro_rules! citE { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = citE!(x), br!(), (citE!(x)))) }
        13 => { macro_rules! codE { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ codE!(x) }, span!(id = codE![x]))) }
        14 => { macro_rules! colgrouP { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", colgrouP!(x), classes!(colgrouP!(x)))) }
        15 => { macro_rules! datA { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(datA!(x), z = datA![x])) }
        16 => { macro_rules! datalisT { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { datalisT!(x) } else { datalisT!(x) }))) }
        17 => { macro_rules! dD { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(dD!(x), id = dD![x])) }
        18 => { macro_rules! deL { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(deL!(x), deL!(x))) }
        19 => { macro_rules! detailS { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(detailS!(x), detailS![x])) }
        20 => { macro_rules! dfN { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = dfN!(x), b = dfN!(x))) }
        21 => { macro_rules! dialoG { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(dialoG!(x)), dialoG![x])) }
        22 => { macro_rules! diV { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = diV!(x), br!(), (diV!(x)))) }
        23 => { macro_rules! dL { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ dL!(x) }, span!(id = dL![x]))) }
        24 => { macro_rules! dT { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", dT!(x), classes!(dT!(x)))) }
        25 => { macro_rules! eM { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(eM!(x), z = eM![x])) }
        26 => { macro_rules! fieldseT { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { fieldseT!(x) } else { fieldseT!(x) }))) }
        27 => { macro_rules! figcaptioN { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(figcaptioN!(x), id = figcaptioN![x])) }
        28 => { macro_rules! figurE { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(figurE!(x), figurE!(x))) }
        29 => { macro_rules! footeR { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(footeR!(x), footeR![x])) }
        30 => { macro_rules! forM { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = forM!(x), b = forM!(x))) }
        31 => { macro_rules! heaD { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(heaD!(x), id = heaD![x])) }
        32 => { macro_rules! headeR { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(headeR!(x), headeR!(x))) }
        33 => { macro_rules! hgrouP { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(hgrouP!(x), hgrouP![x])) }
        34 => { macro_rules! htmL { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = htmL!(x), b = htmL!(x))) }
        35 => { macro_rules! iframE { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = iframE!(x), br!(), (iframE!(x)))) }
        36 => { macro_rules! inS { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ inS!(x) }, span!(id = inS![x]))) }
        37 => { macro_rules! kbD { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", kbD!(x), classes!(kbD!(x)))) }
        38 => { macro_rules! labeL { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(labeL!(x), z = labeL![x])) }
        39 => { macro_rules! legenD { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { legenD!(x) } else { legenD!(x) }))) }
        40 => { macro_rules! lI { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(lI!(x), id = lI![x])) }
        41 => { macro_rules! maiN { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(maiN!(x), maiN!(x))) }
        42 => { macro_rules! maP { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(maP!(x), maP![x])) }
        43 => { macro_rules! marK { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = marK!(x), b = marK!(x))) }
        44 => { macro_rules! menU { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(menU!(x)), menU![x])) }
        45 => { macro_rules! menuiteM { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = menuiteM!(x), br!(), (menuiteM!(x)))) }
        46 => { macro_rules! meteR { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ meteR!(x) }, span!(id = meteR![x]))) }
        47 => { macro_rules! naV { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", naV!(x), classes!(naV!(x)))) }
        48 => { macro_rules! noscripT { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(noscripT!(x), z = noscripT![x])) }
        49 => { macro_rules! objecT { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { objecT!(x) } else { objecT!(x) }))) }
        50 => { macro_rules! oL { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(oL!(x), id = oL![x])) }
        51 => { macro_rules! optgrouP { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(optgrouP!(x), optgrouP!(x))) }
        52 => { macro_rules! optioN { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(optioN!(x), optioN![x])) }
        53 => { macro_rules! outpuT { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = outpuT!(x), b = outpuT!(x))) }
        54 => { macro_rules! picturE { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = picturE!(x), br!(), (picturE!(x)))) }
        55 => { macro_rules! prE { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ prE!(x) }, span!(id = prE![x]))) }
        56 => { macro_rules! progresS { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", progresS!(x), classes!(progresS!(x)))) }
        57 => { macro_rules! rB { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { rB!(x) } else { rB!(x) }))) }
        58 => { macro_rules! rP { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(rP!(x), id = rP![x])) }
        59 => { macro_rules! rT { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(rT!(x), rT!(x))) }
        60 => { macro_rules! rtC { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(rtC!(x), rtC![x])) }
        61 => { macro_rules! rubY { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = rubY!(x), b = rubY!(x))) }
        62 => { macro_rules! samP { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = samP!(x), br!(), (samP!(x)))) }
        63 => { macro_rules! scripT { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ scripT!(x) }, span!(id = scripT![x]))) }
        64 => { macro_rules! sectioN { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", sectioN!(x), classes!(sectioN!(x)))) }
        65 => { macro_rules! selecT { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(selecT!(x), z = selecT![x])) }
        66 => { macro_rules! sloT { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { sloT!(x) } else { sloT!(x) }))) }
        67 => { macro_rules! smalL { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(smalL!(x), id = smalL![x])) }
        68 => { macro_rules! spaN { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(spaN!(x), spaN!(x))) }
        69 => { macro_rules! stronG { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(stronG!(x), stronG![x])) }
        70 => { macro_rules! stylE { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = stylE!(x), b = stylE!(x))) }
        71 => { macro_rules! suB { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(suB!(x)), suB![x])) }
        72 => { macro_rules! summarY { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = summarY!(x), br!(), (summarY!(x)))) }
        73 => { macro_rules! suP { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ suP!(x) }, span!(id = suP![x]))) }
        74 => { macro_rules! tablE { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", tablE!(x), classes!(tablE!(x)))) }
        75 => { macro_rules! tbodY { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(tbodY!(x), z = tbodY![x])) }
        76 => { macro_rules! tD { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { tD!(x) } else { tD!(x) }))) }
        77 => { macro_rules! templatE { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(templatE!(x), id = templatE![x])) }
        78 => { macro_rules! textareA { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(textareA!(x), textareA!(x))) }
        79 => { macro_rules! tfooT { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(tfooT!(x), tfooT![x])) }
        80 => { macro_rules! tH { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = tH!(x), b = tH!(x))) }
        81 => { macro_rules! theaD { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(theaD!(x)), theaD![x])) }
        82 => { macro_rules! timE { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = timE!(x), br!(), (timE!(x)))) }
        83 => { macro_rules! titlE { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ titlE!(x) }, span!(id = titlE![x]))) }
        84 => { macro_rules! tR { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", tR!(x), classes!(tR!(x)))) }
        85 => { macro_rules! uL { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { uL!(x) } else { uL!(x) }))) }
        86 => { macro_rules! vaR { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(vaR!(x), id = vaR![x])) }
        87 => { macro_rules! videO { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(videO!(x), videO!(x))) }
        88 => { macro_rules! areA { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(areA!(x), areA![x])) }
        89 => { macro_rules! basE { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = basE!(x), b = basE!(x))) }
        90 => { macro_rules! bR { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(bR!(x)), bR![x])) }
        91 => { macro_rules! coL { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = coL!(x), br!(), (coL!(x)))) }
        92 => { macro_rules! embeD { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ embeD!(x) }, span!(id = embeD![x]))) }
        93 => { macro_rules! hR { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", hR!(x), classes!(hR!(x)))) }
        94 => { macro_rules! imG { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(imG!(x), z = imG![x])) }
        95 => { macro_rules! inpuT { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { inpuT!(x) } else { inpuT!(x) }))) }
        96 => { macro_rules! linK { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(linK!(x), id = linK![x])) }
        97 => { macro_rules! metA { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(metA!(x), metA!(x))) }
        98 => { macro_rules! paraM { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(paraM!(x), paraM![x])) }
        99 => { macro_rules! sourcE { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = sourcE!(x), b = sourcE!(x))) }
        100 => { macro_rules! tracK { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(tracK!(x)), tracK![x])) }
        101 => { macro_rules! wbR { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = wbR!(x), br!(), (wbR!(x)))) }
        102 => { macro_rules! fraG { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ fraG!(x) }, span!(id = fraG![x]))) }
        103 => { macro_rules! classeS { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", classeS!(x), classes!(classeS!(x)))) }
        104 => { macro_rules! booL { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(booL!(x), z = booL![x])) }
        105 => { macro_rules! frag_matcH { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { frag_matcH!(x) } else { frag_matcH!(x) }))) }
        106 => { macro_rules! iteR { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(iteR!(x), id = iteR![x])) }
        _ => { macro_rules! raW { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(raW!(x), raW!(x))) } } }
    h_18_near12(b) { let x = t(1); let k = bool_(); match choose(121) { 0 => { macro_rules! _a { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(_a!(x), _a!(x))) }
        1 => { macro_rules! _abbr { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = _abbr!(x), b = _abbr![x])) }
        2 => { macro_rules! _address { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(_address!(x)), _address!(x))) }
        3 => { macro_rules! _article { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = _article!(x), br!(), (_article![x]))) }
        4 => { macro_rules! _aside { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ _aside!(x) }, span!(id = _aside!(x)))) }
        5 => { macro_rules! _audio { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", _audio!(x), classes!(_audio![x]))) }
        6 => { macro_rules! _b { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(_b!(x), z = _b!(x))) }
        7 => { macro_rules! _bdi { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { _bdi!(x) } else { _bdi![x] }))) }
        8 => { macro_rules! _bdo { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(_bdo!(x), id = _bdo!(x))) }
        9 => { macro_rules! _blockquote { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(_blockquote!(x), _blockquote![x])) }
        10 => { macro_rules! _body { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(_body!(x), _body!(x))) }
        11 => { macro_rules! _button { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = _button!(x), b = _button![x])) }
        12 => { macro_rules! _canvas { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(_canvas!(x)), _canvas!(x))) }
        13 => { macro_rules! _caption { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = _caption!(x), br!(), (_caption![x]))) }
        14 => { macro_rules! _cite { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ _cite!(x) }, span!(id = _cite!(x)))) }
        15 => { macro_rules! _code { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", _code!(x), classes!(_code![x]))) }
        16 => { macro_rules! _colgroup { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(_colgroup!(x), z = _colgroup!(x))) }
        17 => { macro_rules! _data { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { _data!(x) } else { _data![x] }))) }
        18 => { macro_rules! _datalist { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(_datalist!(x), id = _datalist!(x))) }
        19 => { macro_rules! _dd { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(_dd!(x), _dd![x])) }
        20 => { macro_rules! _del { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(_del!(x), _del!(x))) }
        21 => { macro_rules! _details { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = _details!(x), b = _details![x])) }
        22 => { macro_rules! _dfn { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(_dfn!(x)), _dfn!(x))) }
        23 => { macro_rules! _dialog { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = _dialog!(x), br!(), (_dialog![x]))) }
        24 => { macro_rules! _div { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ _div!(x) }, span!(id = _div!(x)))) }
        25 => { macro_rules! _dl { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", _dl!(x), classes!(_dl![x]))) }
        26 => { macro_rules! _dt { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(_dt!(x), z = _dt!(x))) }
        27 => { macro_rules! _em { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { _em!(x) } else { _em![x] }))) }
        28 => { macro_rules! _fieldset { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(_fieldset!(x), id = _fieldset!(x))) }
        29 => { macro_rules! _figcaption { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(_figcaption!(x), _figcaption![x])) }
        30 => { macro_rules! _figure { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(_figure!(x), _figure!(x))) }
        31 => { macro_rules! _footer { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = _footer!(x), b = _footer![x])) }
        32 => { macro_rules! _form { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(_form!(x)), _form!(x))) }
        33 => { macro_rules! _h1 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = _h1!(x), br!(), (_h1![x]))) }
        34 => { macro_rules! _h2 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ _h2!(x) }, span!(id = _h2!(x)))) }
        35 => { macro_rules! _h3 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", _h3!(x), classes!(_h3![x]))) }
        36 => { macro_rules! _h4 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(_h4!(x), z = _h4!(x))) }
        37 => { macro_rules! _h5 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { _h5!(x) } else { _h5![x] }))) }
        38 => { macro_rules! _h6 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(_h6!(x), id = _h6!(x))) }
        39 => { macro_rules! _head { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(_head!(x), _head![x])) }
        40 => { macro_rules! _header { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(_header!(x), _header!(x))) }
        41 => { macro_rules! _hgroup { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = _hgroup!(x), b = _hgroup![x])) }
        42 => { macro_rules! _html { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(_html!(x)), _html!(x))) }
        43 => { macro_rules! _i { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = _i!(x), br!(), (_i![x]))) }
        44 => { macro_rules! _iframe { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ _iframe!(x) }, span!(id = _iframe!(x)))) }
        45 => { macro_rules! _ins { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", _ins!(x), classes!(_ins![x]))) }
        46 => { macro_rules! _kbd { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(_kbd!(x), z = _kbd!(x))) }
        47 => { macro_rules! _label { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { _label!(x) } else { _label![x] }))) }
        48 => { macro_rules! _legend { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(_legend!(x), id = _legend!(x))) }
        49 => { macro_rules! _li { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(_li!(x), _li![x])) }
        50 => { macro_rules! _main { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(_main!(x), _main!(x))) }
        51 => { macro_rules! _map { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = _map!(x), b = _map![x])) }
        52 => { macro_rules! _mark { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(_mark!(x)), _mark!(x))) }
        53 => { macro_rules! _menu { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = _menu!(x), br!(), (_menu![x]))) }
        54 => { macro_rules! _menuitem { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ _menuitem!(x) }, span!(id = _menuitem!(x)))) }
        55 => { macro_rules! _meter { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", _meter!(x), classes!(_meter![x]))) }
        56 => { macro_rules! _nav { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(_nav!(x), z = _nav!(x))) }
        57 => { macro_rules! _noscript { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { _noscript!(x) } else { _noscript![x] }))) }
        58 => { macro_rules! _object { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(_object!(x), id = _object!(x))) }
        59 => { macro_rules! _ol { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(_ol!(x), _ol![x])) }
        60 => { macro_rules! _optgroup { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(_optgroup!(x), _optgroup!(x))) }
        61 => { macro_rules! _option { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = _option!(x), b = _option![x])) }
        62 => { macro_rules! _output { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(_output!(x)), _output!(x))) }
        63 => { macro_rules! _p { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = _p!(x), br!(), (_p![x]))) }
        64 => { macro_rules! _picture { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ _picture!(x) }, span!(id = _picture!(x)))) }
        65 => { macro_rules! _pre { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", _pre!(x), classes!(_pre![x]))) }
        66 => { macro_rules! _progress { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(_progress!(x), z = _progress!(x))) }
        67 => { macro_rules! _q { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { _q!(x) } else { _q![x] }))) }
        68 => { macro_rules! _rb { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(_rb!(x), id = _rb!(x))) }
        69 => { macro_rules! _rp { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(_rp!(x), _rp![x])) }
        70 => { macro_rules! _rt { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(_rt!(x), _rt!(x))) }
        71 => { macro_rules! _rtc { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = _rtc!(x), b = _rtc![x])) }
        72 => { macro_rules! _ruby { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(_ruby!(x)), _ruby!(x))) }
        73 => { macro_rules! _s { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = _s!(x), br!(), (_s![x]))) }
        74 => { macro_rules! _samp { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ _samp!(x) }, span!(id = _samp!(x)))) }
        75 => { macro_rules! _script { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", _script!(x), classes!(_script![x]))) }
        76 => { macro_rules! _section { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(_section!(x), z = _section!(x))) }
        77 => { macro_rules! _select { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { _select!(x) } else { _select![x] }))) }
        78 => { macro_rules! _slot { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(_slot!(x), id = _slot!(x))) }
        79 => { macro_rules! _small { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(_small!(x), _small![x])) }
        80 => { macro_rules! _span { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(_span!(x), _span!(x))) }
        81 => { macro_rules! _strong { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = _strong!(x), b = _strong![x])) }
        82 => { macro_rules! _style { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(_style!(x)), _style!(x))) }
        83 => { macro_rules! _sub { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = _sub!(x), br!(), (_sub![x]))) }
        84 => { macro_rules! _summary { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ _summary!(x) }, span!(id = _summary!(x)))) }
        85 => { macro_rules! _sup { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", _sup!(x), classes!(_sup![x]))) }
        86 => { macro_rules! _table { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(_table!(x), z = _table!(x))) }
        87 => { macro_rules! _tbody { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { _tbody!(x) } else { _tbody![x] }))) }
        88 => { macro_rules! _td { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(_td!(x), id = _td!(x))) }
        89 => { macro_rules! _template { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(_template!(x), _template![x])) }
        90 => { macro_rules! _textarea { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(_textarea!(x), _textarea!(x))) }
        91 => { macro_rules! _tfoot { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = _tfoot!(x), b = _tfoot![x])) }
        92 => { macro_rules! _th { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(_th!(x)), _th!(x))) }
        93 => { macro_rules! _thead { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = _thead!(x), br!(), (_thead![x]))) }
        94 => { macro_rules! _time { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ _time!(x) }, span!(id = _time!(x)))) }
        95 => { macro_rules! _title { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", _title!(x), classes!(_title![x]))) }
        96 => { macro_rules! _tr { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(_tr!(x), z = _tr!(x))) }
        97 => { macro_rules! _u { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { _u!(x) } else { _u![x] }))) }
        98 => { macro_rules! _ul { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(_ul!(x), id = _ul!(x))) }
        99 => { macro_rules! _var { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(_var!(x), _var![x])) }
        100 => { macro_rules! _video { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(_video!(x), _video!(x))) }
        101 => { macro_rules! _area { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = _area!(x), b = _area![x])) }
        102 => { macro_rules! _base { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(_base!(x)), _base!(x))) }
        103 => { macro_rules! _br { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = _br!(x), br!(), (_br![x]))) }
        104 => { macro_rules! _col { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ _col!(x) }, span!(id = _col!(x)))) }
        105 => { macro_rules! _embed { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", _embed!(x), classes!(_embed![x]))) }
        106 => { macro_rules! _hr { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(_hr!(x), z = _hr!(x))) }
        107 => { macro_rules! _img { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { _img!(x) } else { _img![x] }))) }
        108 => { macro_rules! _input { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(_input!(x), id = _input!(x))) }
        109 => { macro_rules! _link { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(_link!(x), _link![x])) }
        110 => { macro_rules! _meta { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(_meta!(x), _meta!(x))) }
        111 => { macro_rules! _param { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = _param!(x), b = _param![x])) }
        112 => { macro_rules! _source { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(_source!(x)), _source!(x))) }
        113 => { macro_rules! _track { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = _track!(x), br!(), (_track![x]))) }
        114 => { macro_rules! _wbr { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ _wbr!(x) }, span!(id = _wbr!(x)))) }
        115 => { macro_rules! _frag { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", _frag!(x), classes!(_frag![x]))) }
        116 => { macro_rules! _classes { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(_classes!(x), z = _classes!(x))) }
        117 => { macro_rules! _bool { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { _bool!(x) } else { _bool![x] }))) }
        118 => { macro_rules! _frag_match { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(_frag_match!(x), id = _frag_match!(x))) }
        119 => { macro_rules! _iter { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(_iter!(x), _iter![x])) }
        _ => { macro_rules! _raw { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(_raw!(x), _raw!(x))) } } }
    h_18_near13(b) { let x = t(1); let k = bool_(); match choose(121) { 0 => { macro_rules! a_a { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = a_a!(x), b = a_a!(x))) }
        1 => { macro_rules! abbr_abbr { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(abbr_abbr!(x)), abbr_abbr![x])) }
        2 => { macro_rules! address_address { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = address_address!(x), br!(), (address_address!(x)))) }
        3 => { macro_rules! article_article { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ article_article!(x) }, span!(id = article_article![x]))) }
        4 => { macro_rules! aside_aside { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", aside_aside!(x), classes!(aside_aside!(x)))) }
        5 => { macro_rules! audio_audio { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(audio_audio!(x), z = audio_audio![x])) }
        6 => { macro_rules! b_b { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { b_b!(x) } else { b_b!(x) }))) }
        7 => { macro_rules! bdi_bdi { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(bdi_bdi!(x), id = bdi_bdi![x])) }
        8 => { macro_rules! bdo_bdo { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(bdo_bdo!(x), bdo_bdo!(x))) }
        9 => { macro_rules! blockquote_blockquote { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(blockquote_blockquote!(x), blockquote_blockquote![x])) }
        10 => { macro_rules! body_body { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = body_body!(x), b = body_body!(x))) }
        11 => { macro_rules! button_button { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(button_button!(x)), button_button![x])) }
        12 => { macro_rules! canvas_canvas { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = canvas_canvas!(x), br!(), (canvas_canvas!(x)))) }
        13 => { macro_rules! caption_caption { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ caption_caption!(x) }, span!(id = caption_caption![x]))) }
        14 => { macro_rules! cite_cite { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", cite_cite!(x), classes!(cite_cite!(x)))) }
        15 => { macro_rules! code_code { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(code_code!(x), z = code_code![x])) }
        16 => { macro_rules! colgroup_colgroup { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { colgroup_colgroup!(x) } else { colgroup_colgroup!(x) }))) }
        17 => { macro_rules! data_data { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(data_data!(x), id = data_data![x])) }
        18 => { macro_rules! datalist_datalist { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(datalist_datalist!(x), datalist_datalist!(x))) }
        19 => { macro_rules! dd_dd { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(dd_dd!(x), dd_dd![x])) }
        20 => { macro_rules! del_del { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = del_del!(x), b = del_del!(x))) }
        21 => { macro_rules! details_details { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(details_details!(x)), details_details![x])) }
        22 => { macro_rules! dfn_dfn { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = dfn_dfn!(x), br!(), (dfn_dfn!(x)))) }
        23 => { macro_rules! dialog_dialog { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ dialog_dialog!(x) }, span!(id = dialog_dialog![x]))) }
        24 => { macro_rules! div_div { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", div_div!(x), classes!(div_div!(x)))) }
        25 => { macro_rules! dl_dl { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(dl_dl!(x), z = dl_dl![x])) }
        26 => { macro_rules! dt_dt { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { dt_dt!(x) } else { dt_dt!(x) }))) }
        27 => { macro_rules! em_em { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(em_em!(x), id = em_em![x])) }
        28 => { macro_rules! fieldset_fieldset { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(fieldset_fieldset!(x), fieldset_fieldset!(x))) }
        29 => { macro_rules! figcaption_figcaption { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(figcaption_figcaption!(x), figcaption_figcaption![x])) }
        30 => { macro_rules! figure_figure { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = figure_figure!(x), b = figure_figure!(x))) }
        31 => { macro_rules! footer_footer { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(footer_footer!(x)), footer_footer![x])) }
        32 => { macro_rules! form_form { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = form_form!(x), br!(), (form_form!(x)))) }
        33 => { macro_rules! h1_h1 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ h1_h1!(x) }, span!(id = h1_h1![x]))) }
        34 => { macro_rules! h2_h2 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", h2_h2!(x), classes!(h2_h2!(x)))) }
        35 => { macro_rules! h3_h3 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(h3_h3!(x), z = h3_h3![x])) }
        36 => { macro_rules! h4_h4 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { h4_h4!(x) } else { h4_h4!(x) }))) }
        37 => { macro_rules! h5_h5 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(h5_h5!(x), id = h5_h5![x])) }
        38 => { macro_rules! h6_h6 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(h6_h6!(x), h6_h6!(x))) }
        39 => { macro_rules! head_head { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(head_head!(x), head_head![x])) }
        40 => { macro_rules! header_header { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = header_header!(x), b = header_header!(x))) }
        41 => { macro_rules! hgroup_hgroup { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(hgroup_hgroup!(x)), hgroup_hgroup![x])) }
        42 => { macro_rules! html_html { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = html_html!(x), br!(), (html_html!(x)))) }
        43 => { macro_rules! i_i { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ i_i!(x) }, span!(id = i_i![x]))) }
        44 => { macro_rules! iframe_iframe { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", iframe_iframe!(x), classes!(iframe_iframe!(x)))) }
        45 => { macro_rules! ins_ins { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(ins_ins!(x), z = ins_ins![x])) }
        46 => { macro_rules! kbd_kbd { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { kbd_kbd!(x) } else { kbd_kbd!(x) }))) }
        47 => { macro_rules! label_label { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(label_label!(x), id = label_label![x])) }
        48 => { macro_rules! legend_legend { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(legend_legend!(x), legend_legend!(x))) }
        49 => { macro_rules! li_li { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(li_li!(x), li_li![x])) }
        50 => { macro_rules! main_main { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = main_main!(x), b = main_main!(x))) }
        51 => { macro_rules! map_map { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(map_map!(x)), map_map![x])) }
        52 => { macro_rules! mark_mark { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = mark_mark!(x), br!(), (mark_mark!(x)))) }
        53 => { macro_rules! menu_menu { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ menu_menu!(x) }, span!(id = menu_menu![x]))) }
        54 => { macro_rules! menuitem_menuitem { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", menuitem_menuitem!(x), classes!(menuitem_menuitem!(x)))) }
        55 => { macro_rules! meter_meter { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(meter_meter!(x), z = meter_meter![x])) }
        56 => { macro_rules! nav_nav { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { nav_nav!(x) } else { nav_nav!(x) }))) }
        57 => { macro_rules! noscript_noscript { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(noscript_noscript!(x), id = noscript_noscript![x])) }
        58 => { macro_rules! object_object { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(object_object!(x), object_object!(x))) }
        59 => { macro_rules! ol_ol { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(ol_ol!(x), ol_ol![x])) }
        60 => { macro_rules! optgroup_optgroup { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = optgroup_optgroup!(x), b = optgroup_optgroup!(x))) }
        61 => { macro_rules! option_option { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(option_option!(x)), option_option![x])) }
        62 => { macro_rules! output_output { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = output_output!(x), br!(), (output_output!(x)))) }
        63 => { macro_rules! p_p { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ p_p!(x) }, span!(id = p_p![x]))) }
        64 => { macro_rules! picture_picture { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", picture_picture!(x), classes!(picture_picture!(x)))) }
        65 => { macro_rules! pre_pre { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(pre_pre!(x), z = pre_pre![x])) }
        66 => { macro_rules! progress_progress { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { progress_progress!(x) } else { progress_progress!(x) }))) }
        67 => { macro_rules! q_q { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(q_q!(x), id = q_q![x])) }
        68 => { macro_rules! rb_rb { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(rb_rb!(x), rb_rb!(x))) }
        69 => { macro_rules! rp_rp { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(rp_rp!(x), rp_rp![x])) }
        70 => { macro_rules! rt_rt { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = rt_rt!(x), b = rt_rt!(x))) }
        71 => { macro_rules! rtc_rtc { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(rtc_rtc!(x)), rtc_rtc![x])) }
        72 => { macro_rules! ruby_ruby { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = ruby_ruby!(x), br!(), (ruby_ruby!(x)))) }
        73 => { macro_rules! s_s { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ s_s!(x) }, span!(id = s_s![x]))) }
        74 => { macro_rules! samp_samp { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", samp_samp!(x), classes!(samp_samp!(x)))) }
        75 => { macro_rules! script_script { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(script_script!(x), z = script_script![x])) }
        76 => { macro_rules! section_section { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { section_section!(x) } else { section_section!(x) }))) }
        77 => { macro_rules! select_select { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(select_select!(x), id = select_select![x])) }
        78 => { macro_rules! slot_slot { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(slot_slot!(x), slot_slot!(x))) }
        79 => { macro_rules! small_small { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(small_small!(x), small_small![x])) }
        80 => { macro_rules! span_span { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = span_span!(x), b = span_span!(x))) }
        81 => { macro_rules! strong_strong { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(strong_strong!(x)), strong_strong![x])) }
        82 => { macro_rules! style_style { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = style_style!(x), br!(), (style_style!(x)))) }
        83 => { macro_rules! sub_sub { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ sub_sub!(x) }, span!(id = sub_sub![x]))) }
        84 => { macro_rules! summary_summary { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", summary_summary!(x), classes!(summary_summary!(x)))) }
        85 => { macro_rules! sup_sup { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(sup_sup!(x), z = sup_sup![x])) }
        86 => { macro_rules! table_table { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { table_table!(x) } else { table_table!(x) }))) }
        87 => { macro_rules! tbody_tbody { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(tbody_tbody!(x), id = tbody_tbody![x])) }
        88 => { macro_rules! td_td { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(td_td!(x), td_td!(x))) }
        89 => { macro_rules! template_template { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(template_template!(x), template_template![x])) }
        90 => { macro_rules! textarea_textarea { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = textarea_textarea!(x), b = textarea_textarea!(x))) }
        91 => { macro_rules! tfoot_tfoot { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(tfoot_tfoot!(x)), tfoot_tfoot![x])) }
        92 => { macro_rules! th_th { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = th_th!(x), br!(), (th_th!(x)))) }
        93 => { macro_rules! thead_thead { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ thead_thead!(x) }, span!(id = thead_thead![x]))) }
        94 => { macro_rules! time_time { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", time_time!(x), classes!(time_time!(x)))) }
        95 => { macro_rules! title_title { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(title_title!(x), z = title_title![x])) }
        96 => { macro_rules! tr_tr { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { tr_tr!(x) } else { tr_tr!(x) }))) }
        97 => { macro_rules! u_u { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(u_u!(x), id = u_u![x])) }
        98 => { macro_rules! ul_ul { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(ul_ul!(x), ul_ul!(x))) }
        99 => { macro_rules! var_var { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(var_var!(x), var_var![x])) }
        100 => { macro_rules! video_video { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = video_video!(x), b = video_video!(x))) }
        101 => { macro_rules! area_area { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(area_area!(x)), area_area![x])) }
        102 => { macro_rules! base_base { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = base_base!(x), br!(), (base_base!(x)))) }
        103 => { macro_rules! br_br { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ br_br!(x) }, span!(id = br_br![x]))) }
        104 => { macro_rules! col_col { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", col_col!(x), classes!(col_col!(x)))) }
        105 => { macro_rules! embed_embed { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(embed_embed!(x), z = embed_embed![x])) }
        106 => { macro_rules! hr_hr { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { hr_hr!(x) } else { hr_hr!(x) }))) }
        107 => { macro_rules! img_img { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(img_img!(x), id = img_img![x])) }
        108 => { macro_rules! input_input { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(input_input!(x), input_input!(x))) }
        109 => { macro_rules! link_link { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(link_link!(x), link_link![x])) }
        110 => { macro_rules! meta_meta { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = meta_meta!(x), b = meta_meta!(x))) }
        111 => { macro_rules! param_param { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(param_param!(x)), param_param![x])) }
        112 => { macro_rules! source_source { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = source_source!(x), br!(), (source_source!(x)))) }
        113 => { macro_rules! track_track { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ track_track!(x) }, span!(id = track_track![x]))) }
        114 => { macro_rules! wbr_wbr { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", wbr_wbr!(x), classes!(wbr_wbr!(x)))) }
        115 => { macro_rules! frag_frag { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(frag_frag!(x), z = frag_frag![x])) }
        116 => { macro_rules! classes_classes { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { classes_classes!(x) } else { classes_classes!(x) }))) }
        117 => { macro_rules! bool_bool { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(bool_bool!(x), id = bool_bool![x])) }
        118 => { macro_rules! frag_match_frag_match { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(frag_match_frag_match!(x), frag_match_frag_match!(x))) }
        119 => { macro_rules! iter_iter { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(iter_iter!(x), iter_iter![x])) }
        _ => { macro_rules! raw_raw { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = raw_raw!(x), b = raw_raw!(x))) } } }
    h_18_near14(b) { let x = t(1); let k = bool_(); match choose(120) { 0 => { macro_rules! html_a { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(html_a!(x)), html_a!(x))) }
        1 => { macro_rules! html_abbr { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = html_abbr!(x), br!(), (html_abbr![x]))) }
        2 => { macro_rules! html_address { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ html_address!(x) }, span!(id = html_address!(x)))) }
        3 => { macro_rules! html_article { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", html_article!(x), classes!(html_article![x]))) }
        4 => { macro_rules! html_aside { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(html_aside!(x), z = html_aside!(x))) }
        5 => { macro_rules! html_audio { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { html_audio!(x) } else { html_audio![x] }))) }
        6 => { macro_rules! html_b { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(html_b!(x), id = html_b!(x))) }
        7 => { macro_rules! html_bdi { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(html_bdi!(x), html_bdi![x])) }
        8 => { macro_rules! html_bdo { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(html_bdo!(x), html_bdo!(x))) }
        9 => { macro_rules! html_blockquote { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = html_blockquote!(x), b = html_blockquote![x])) }
        10 => { macro_rules! html_body { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(html_body!(x)), html_body!(x))) }
        11 => { macro_rules! html_button { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = html_button!(x), br!(), (html_button![x]))) }
        12 => { macro_rules! html_canvas { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ html_canvas!(x) }, span!(id = html_canvas!(x)))) }
        13 => { macro_rules! html_caption { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", html_caption!(x), classes!(html_caption![x]))) }
        14 => { macro_rules! html_cite { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(html_cite!(x), z = html_cite!(x))) }
        15 => { macro_rules! html_code { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { html_code!(x) } else { html_code![x] }))) }
        16 => { macro_rules! html_colgroup { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(html_colgroup!(x), id = html_colgroup!(x))) }
        17 => { macro_rules! html_data { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(html_data!(x), html_data![x])) }
        18 => { macro_rules! html_datalist { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(html_datalist!(x), html_datalist!(x))) }
        19 => { macro_rules! html_dd { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = html_dd!(x), b = html_dd![x])) }
        20 => { macro_rules! html_del { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(html_del!(x)), html_del!(x))) }
        21 => { macro_rules! html_details { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = html_details!(x), br!(), (html_details![x]))) }
        22 => { macro_rules! html_dfn { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ html_dfn!(x) }, span!(id = html_dfn!(x)))) }
        23 => { macro_rules! html_dialog { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", html_dialog!(x), classes!(html_dialog![x]))) }
        24 => { macro_rules! html_div { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(html_div!(x), z = html_div!(x))) }
        25 => { macro_rules! html_dl { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { html_dl!(x) } else { html_dl![x] }))) }
        26 => { macro_rules! html_dt { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(html_dt!(x), id = html_dt!(x))) }
        27 => { macro_rules! html_em { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(html_em!(x), html_em![x])) }
        28 => { macro_rules! html_fieldset { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(html_fieldset!(x), html_fieldset!(x))) }
        29 => { macro_rules! html_figcaption { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = html_figcaption!(x), b = html_figcaption![x])) }
        30 => { macro_rules! html_figure { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(html_figure!(x)), html_figure!(x))) }
        31 => { macro_rules! html_footer { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = html_footer!(x), br!(), (html_footer![x]))) }
        32 => { macro_rules! html_form { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ html_form!(x) }, span!(id = html_form!(x)))) }
        33 => { macro_rules! html_h1 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", html_h1!(x), classes!(html_h1![x]))) }
        34 => { macro_rules! html_h2 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(html_h2!(x), z = html_h2!(x))) }
        35 => { macro_rules! html_h3 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { html_h3!(x) } else { html_h3![x] }))) }
        36 => { macro_rules! html_h4 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(html_h4!(x), id = html_h4!(x))) }
        37 => { macro_rules! html_h5 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(html_h5!(x), html_h5![x])) }
        38 => { macro_rules! html_h6 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(html_h6!(x), html_h6!(x))) }
        39 => { macro_rules! html_head { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = html_head!(x), b = html_head![x])) }
        40 => { macro_rules! html_header { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(html_header!(x)), html_header!(x))) }
        41 => { macro_rules! html_hgroup { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = html_hgroup!(x), br!(), (html_hgroup![x]))) }
        42 => { macro_rules! html_i { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", html_i!(x), classes!(html_i![x]))) }
        43 => { macro_rules! html_iframe { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(html_iframe!(x), z = html_iframe!(x))) }
        44 => { macro_rules! html_ins { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { html_ins!(x) } else { html_ins![x] }))) }
        45 => { macro_rules! html_kbd { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(html_kbd!(x), id = html_kbd!(x))) }
        46 => { macro_rules! html_label { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(html_label!(x), html_label![x])) }
        47 => { macro_rules! html_legend { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(html_legend!(x), html_legend!(x))) }
        48 => { macro_rules! html_li { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = html_li!(x), b = html_li![x])) }
        49 => { macro_rules! html_main { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(html_main!(x)), html_main!(x))) }
        50 => { macro_rules! html_map { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = html_map!(x), br!(), (html_map![x]))) }
        51 => { macro_rules! html_mark { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ html_mark!(x) }, span!(id = html_mark!(x)))) }
        52 => { macro_rules! html_menu { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", html_menu!(x), classes!(html_menu![x]))) }
        53 => { macro_rules! html_menuitem { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(html_menuitem!(x), z = html_menuitem!(x))) }
        54 => { macro_rules! html_meter { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { html_meter!(x) } else { html_meter![x] }))) }
        55 => { macro_rules! html_nav { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(html_nav!(x), id = html_nav!(x))) }
        56 => { macro_rules! html_noscript { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(html_noscript!(x), html_noscript![x])) }
        57 => { macro_rules! html_object { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(html_object!(x), html_object!(x))) }
        58 => { macro_rules! html_ol { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = html_ol!(x), b = html_ol![x])) }
        59 => { macro_rules! html_optgroup { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(html_optgroup!(x)), html_optgroup!(x))) }
        60 => { macro_rules! html_option { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = html_option!(x), br!(), (html_option![x]))) }
        61 => { macro_rules! html_output { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ html_output!(x) }, span!(id = html_output!(x)))) }
        62 => { macro_rules! html_p { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", html_p!(x), classes!(html_p![x]))) }
        63 => { macro_rules! html_picture { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(html_picture!(x), z = html_picture!(x))) }
        64 => { macro_rules! html_pre { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { html_pre!(x) } else { html_pre![x] }))) }
        65 => { macro_rules! html_progress { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(html_progress!(x), id = html_progress!(x))) }
        66 => { macro_rules! html_q { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(html_q!(x), html_q![x])) }
        67 => { macro_rules! html_rb { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(html_rb!(x), html_rb!(x))) }
        68 => { macro_rules! html_rp { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = html_rp!(x), b = html_rp![x])) }
        69 => { macro_rules! html_rt { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(html_rt!(x)), html_rt!(x))) }
        70 => { macro_rules! html_rtc { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = html_rtc!(x), br!(), (html_rtc![x]))) }
        71 => { macro_rules! html_ruby { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ html_ruby!(x) }, span!(id = html_ruby!(x)))) }
        72 => { macro_rules! html_s { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", html_s!(x), classes!(html_s![x]))) }
        73 => { macro_rules! html_samp { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(html_samp!(x), z = html_samp!(x))) }
        74 => { macro_rules! html_script { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { html_script!(x) } else { html_script![x] }))) }
        75 => { macro_rules! html_section { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(html_section!(x), id = html_section!(x))) }
        76 => { macro_rules! html_select { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(html_select!(x), html_select![x])) }
        77 => { macro_rules! html_slot { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(html_slot!(x), html_slot!(x))) }
        78 => { macro_rules! html_small { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = html_small!(x), b = html_small![x])) }
        79 => { macro_rules! html_span { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(html_span!(x)), html_span!(x))) }
        80 => { macro_rules! html_strong { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = html_strong!(x), br!(), (html_strong![x]))) }
        81 => { macro_rules! html_style { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ html_style!(x) }, span!(id = html_style!(x)))) }
        82 => { macro_rules! html_sub { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", html_sub!(x), classes!(html_sub![x]))) }
        83 => { macro_rules! html_summary { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(html_summary!(x), z = html_summary!(x))) }
        84 => { macro_rules! html_sup { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { html_sup!(x) } else { html_sup![x] }))) }
        85 => { macro_rules! html_table { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(html_table!(x), id = html_table!(x))) }
        86 => { macro_rules! html_tbody { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(html_tbody!(x), html_tbody![x])) }
        87 => { macro_rules! html_td { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(html_td!(x), html_td!(x))) }
        88 => { macro_rules! html_template { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = html_template!(x), b = html_template![x])) }
        89 => { macro_rules! html_textarea { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(html_textarea!(x)), html_textarea!(x))) }
        90 => { macro_rules! html_tfoot { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = html_tfoot!(x), br!(), (html_tfoot![x]))) }
        91 => { macro_rules! html_th { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ html_th!(x) }, span!(id = html_th!(x)))) }
        92 => { macro_rules! html_thead { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", html_thead!(x), classes!(html_thead![x]))) }
        93 => { macro_rules! html_time { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(html_time!(x), z = html_time!(x))) }
        94 => { macro_rules! html_title { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { html_title!(x) } else { html_title![x] }))) }
        95 => { macro_rules! html_tr { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(html_tr!(x), id = html_tr!(x))) }
        96 => { macro_rules! html_u { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(html_u!(x), html_u![x])) }
        97 => { macro_rules! html_ul { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(html_ul!(x), html_ul!(x))) }
        98 => { macro_rules! html_var { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = html_var!(x), b = html_var![x])) }
        99 => { macro_rules! html_video { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(html_video!(x)), html_video!(x))) }
        100 => { macro_rules! html_area { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = html_area!(x), br!(), (html_area![x]))) }
        101 => { macro_rules! html_base { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ html_base!(x) }, span!(id = html_base!(x)))) }
        102 => { macro_rules! html_br { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", html_br!(x), classes!(html_br![x]))) }
        103 => { macro_rules! html_col { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(html_col!(x), z = html_col!(x))) }
        104 => { macro_rules! html_embed { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { html_embed!(x) } else { html_embed![x] }))) }
        105 => { macro_rules! html_hr { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(html_hr!(x), id = html_hr!(x))) }
        106 => { macro_rules! html_img { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(html_img!(x), html_img![x])) }
        107 => { macro_rules! html_input { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(html_input!(x), html_input!(x))) }
        108 => { macro_rules! html_link { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = html_link!(x), b = html_link![x])) }
        109 => { macro_rules! html_meta { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(html_meta!(x)), html_meta!(x))) }
        110 => { macro_rules! html_param { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = html_param!(x), br!(), (html_param![x]))) }
        111 => { macro_rules! html_source { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ html_source!(x) }, span!(id = html_source!(x)))) }
        112 => { macro_rules! html_track { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", html_track!(x), classes!(html_track![x]))) }
        113 => { macro_rules! html_wbr { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(html_wbr!(x), z = html_wbr!(x))) }
        114 => { macro_rules! html_frag { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { html_frag!(x) } else { html_frag![x] }))) }
        115 => { macro_rules! html_classes { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(html_classes!(x), id = html_classes!(x))) }
        116 => { macro_rules! html_bool { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(html_bool!(x), html_bool![x])) }
        117 => { macro_rules! html_frag_match { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(html_frag_match!(x), html_frag_match!(x))) }
        118 => { macro_rules! html_iter { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = html_iter!(x), b = html_iter![x])) }
        _ => { macro_rules! html_raw { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(html_raw!(x)), html_raw!(x))) } } }
    h_18_near15(b) { let x = t(1); let k = bool_(); match choose(64) { 0 => { macro_rules! á { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = á!(x), br!(), (á!(x)))) }
        1 => { macro_rules! ábbr { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ ábbr!(x) }, span!(id = ábbr![x]))) }
        2 => { macro_rules! áddréss { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", áddréss!(x), classes!(áddréss!(x)))) }
        3 => { macro_rules! árticlé { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(árticlé!(x), z = árticlé![x])) }
        4 => { macro_rules! ásidé { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { ásidé!(x) } else { ásidé!(x) }))) }
        5 => { macro_rules! áudio { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(áudio!(x), id = áudio![x])) }
        6 => { macro_rules! blockquoté { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(blockquoté!(x)), blockquoté![x])) }
        7 => { macro_rules! cánvás { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", cánvás!(x), classes!(cánvás!(x)))) }
        8 => { macro_rules! cáption { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(cáption!(x), z = cáption![x])) }
        9 => { macro_rules! cité { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { cité!(x) } else { cité!(x) }))) }
        10 => { macro_rules! codé { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(codé!(x), id = codé![x])) }
        11 => { macro_rules! dátá { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(dátá!(x), dátá![x])) }
        12 => { macro_rules! dátálist { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = dátálist!(x), b = dátálist!(x))) }
        13 => { macro_rules! dél { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = dél!(x), br!(), (dél!(x)))) }
        14 => { macro_rules! détáils { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ détáils!(x) }, span!(id = détáils![x]))) }
        15 => { macro_rules! diálog { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(diálog!(x), z = diálog![x])) }
        16 => { macro_rules! ém { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(ém!(x), ém![x])) }
        17 => { macro_rules! fiéldsét { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = fiéldsét!(x), b = fiéldsét!(x))) }
        18 => { macro_rules! figcáption { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(figcáption!(x)), figcáption![x])) }
        19 => { macro_rules! figuré { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = figuré!(x), br!(), (figuré!(x)))) }
        20 => { macro_rules! footér { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ footér!(x) }, span!(id = footér![x]))) }
        21 => { macro_rules! héád { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(héád!(x)), héád![x])) }
        22 => { macro_rules! héádér { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = héádér!(x), br!(), (héádér!(x)))) }
        23 => { macro_rules! ifrámé { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { ifrámé!(x) } else { ifrámé!(x) }))) }
        24 => { macro_rules! lábél { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(lábél!(x), lábél![x])) }
        25 => { macro_rules! légénd { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = légénd!(x), b = légénd!(x))) }
        26 => { macro_rules! máin { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = máin!(x), br!(), (máin!(x)))) }
        27 => { macro_rules! máp { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ máp!(x) }, span!(id = máp![x]))) }
        28 => { macro_rules! márk { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", márk!(x), classes!(márk!(x)))) }
        29 => { macro_rules! ménu { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(ménu!(x), z = ménu![x])) }
        30 => { macro_rules! ménuitém { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { ménuitém!(x) } else { ménuitém!(x) }))) }
        31 => { macro_rules! métér { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(métér!(x), id = métér![x])) }
        32 => { macro_rules! náv { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(náv!(x), náv!(x))) }
        33 => { macro_rules! objéct { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = objéct!(x), b = objéct!(x))) }
        34 => { macro_rules! picturé { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { picturé!(x) } else { picturé!(x) }))) }
        35 => { macro_rules! pré { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(pré!(x), id = pré![x])) }
        36 => { macro_rules! progréss { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(progréss!(x), progréss!(x))) }
        37 => { macro_rules! sámp { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { sámp!(x) } else { sámp!(x) }))) }
        38 => { macro_rules! séction { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(séction!(x), séction!(x))) }
        39 => { macro_rules! séléct { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(séléct!(x), séléct![x])) }
        40 => { macro_rules! smáll { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(smáll!(x)), smáll![x])) }
        41 => { macro_rules! spán { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = spán!(x), br!(), (spán!(x)))) }
        42 => { macro_rules! stylé { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", stylé!(x), classes!(stylé!(x)))) }
        43 => { macro_rules! summáry { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { summáry!(x) } else { summáry!(x) }))) }
        44 => { macro_rules! táblé { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(táblé!(x), táblé!(x))) }
        45 => { macro_rules! témpláté { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(témpláté!(x)), témpláté![x])) }
        46 => { macro_rules! téxtáréá { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = téxtáréá!(x), br!(), (téxtáréá!(x)))) }
        47 => { macro_rules! théád { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(théád!(x), z = théád![x])) }
        48 => { macro_rules! timé { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { timé!(x) } else { timé!(x) }))) }
        49 => { macro_rules! titlé { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(titlé!(x), id = titlé![x])) }
        50 => { macro_rules! vár { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(vár!(x)), vár![x])) }
        51 => { macro_rules! vidéo { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = vidéo!(x), br!(), (vidéo!(x)))) }
        52 => { macro_rules! áréá { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ áréá!(x) }, span!(id = áréá![x]))) }
        53 => { macro_rules! básé { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", básé!(x), classes!(básé!(x)))) }
        54 => { macro_rules! émbéd { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(émbéd!(x), id = émbéd![x])) }
        55 => { macro_rules! métá { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = métá!(x), br!(), (métá!(x)))) }
        56 => { macro_rules! párám { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ párám!(x) }, span!(id = párám![x]))) }
        57 => { macro_rules! sourcé { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", sourcé!(x), classes!(sourcé!(x)))) }
        58 => { macro_rules! tráck { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(tráck!(x), z = tráck![x])) }
        59 => { macro_rules! frág { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(frág!(x), id = frág![x])) }
        60 => { macro_rules! clássés { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(clássés!(x), clássés!(x))) }
        61 => { macro_rules! frág_mátch { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = frág_mátch!(x), b = frág_mátch!(x))) }
        62 => { macro_rules! itér { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(itér!(x)), itér![x])) }
        _ => { macro_rules! ráw { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = ráw!(x), br!(), (ráw!(x)))) } } }
    h_18_nearx00(b) { let x = t(1); let k = bool_(); match choose(140) { 0 => { macro_rules! div_el { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(div_el!(x), id = div_el!(x))) }
        1 => { macro_rules! em_el { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(em_el!(x), em_el![x])) }
        2 => { macro_rules! menuitem_el { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(menuitem_el!(x), menuitem_el!(x))) }
        3 => { macro_rules! strong_el { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = strong_el!(x), b = strong_el![x])) }
        4 => { macro_rules! area_el { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(area_el!(x)), area_el!(x))) }
        5 => { macro_rules! meta_el { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = meta_el!(x), br!(), (meta_el![x]))) }
        6 => { macro_rules! classes_el { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ classes_el!(x) }, span!(id = classes_el!(x)))) }
        7 => { macro_rules! div_tag { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(div_tag!(x), div_tag!(x))) }
        8 => { macro_rules! textarea_tag { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(textarea_tag!(x), textarea_tag![x])) }
        9 => { macro_rules! col_tag { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = col_tag!(x), b = col_tag!(x))) }
        10 => { macro_rules! track_tag { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(track_tag!(x)), track_tag![x])) }
        11 => { macro_rules! bool_tag { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = bool_tag!(x), br!(), (bool_tag!(x)))) }
        12 => { macro_rules! datalist_tag { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ datalist_tag!(x) }, span!(id = datalist_tag![x]))) }
        13 => { macro_rules! ins_tag { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", ins_tag!(x), classes!(ins_tag!(x)))) }
        14 => { macro_rules! div_element { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(div_element!(x), div_element!(x))) }
        15 => { macro_rules! frag_element { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = frag_element!(x), b = frag_element![x])) }
        16 => { macro_rules! a_element { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(a_element!(x)), a_element!(x))) }
        17 => { macro_rules! em_element { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = em_element!(x), br!(), (em_element![x]))) }
        18 => { macro_rules! menuitem_element { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ menuitem_element!(x) }, span!(id = menuitem_element!(x)))) }
        19 => { macro_rules! strong_element { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", strong_element!(x), classes!(strong_element![x]))) }
        20 => { macro_rules! area_element { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(area_element!(x), z = area_element!(x))) }
        21 => { macro_rules! div_html { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = div_html!(x), b = div_html!(x))) }
        22 => { macro_rules! h4_html { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(h4_html!(x)), h4_html![x])) }
        23 => { macro_rules! p_html { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = p_html!(x), br!(), (p_html!(x)))) }
        24 => { macro_rules! textarea_html { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ textarea_html!(x) }, span!(id = textarea_html![x]))) }
        25 => { macro_rules! col_html { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", col_html!(x), classes!(col_html!(x)))) }
        26 => { macro_rules! track_html { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(track_html!(x), z = track_html![x])) }
        27 => { macro_rules! bool_html { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { bool_html!(x) } else { bool_html!(x) }))) }
        28 => { macro_rules! div_node { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(div_node!(x)), div_node!(x))) }
        29 => { macro_rules! var_node { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = var_node!(x), br!(), (var_node![x]))) }
        30 => { macro_rules! img_node { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ img_node!(x) }, span!(id = img_node!(x)))) }
        31 => { macro_rules! frag_node { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", frag_node!(x), classes!(frag_node![x]))) }
        32 => { macro_rules! a_node { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(a_node!(x), z = a_node!(x))) }
        33 => { macro_rules! em_node { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { em_node!(x) } else { em_node![x] }))) }
        34 => { macro_rules! menuitem_node { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(menuitem_node!(x), id = menuitem_node!(x))) }
        35 => { macro_rules! div_t { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = div_t!(x), br!(), (div_t!(x)))) }
        36 => { macro_rules! classes_t { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ classes_t!(x) }, span!(id = classes_t![x]))) }
        37 => { macro_rules! blockquote_t { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", blockquote_t!(x), classes!(blockquote_t!(x)))) }
        38 => { macro_rules! h4_t { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(h4_t!(x), z = h4_t![x])) }
        39 => { macro_rules! p_t { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { p_t!(x) } else { p_t!(x) }))) }
        40 => { macro_rules! textarea_t { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(textarea_t!(x), id = textarea_t![x])) }
        41 => { macro_rules! col_t { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(col_t!(x), col_t!(x))) }
        42 => { macro_rules! div2 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ div2!(x) }, span!(id = div2!(x)))) }
        43 => { macro_rules! ins2 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", ins2!(x), classes!(ins2![x]))) }
        44 => { macro_rules! ruby2 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(ruby2!(x), z = ruby2!(x))) }
        45 => { macro_rules! var2 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { var2!(x) } else { var2![x] }))) }
        46 => { macro_rules! img2 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(img2!(x), id = img2!(x))) }
        47 => { macro_rules! frag2 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(frag2!(x), frag2![x])) }
        48 => { macro_rules! a2 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(a2!(x), a2!(x))) }
        49 => { macro_rules! div_macro { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", div_macro!(x), classes!(div_macro!(x)))) }
        50 => { macro_rules! area_macro { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(area_macro!(x), z = area_macro![x])) }
        51 => { macro_rules! meta_macro { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { meta_macro!(x) } else { meta_macro!(x) }))) }
        52 => { macro_rules! classes_macro { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(classes_macro!(x), id = classes_macro![x])) }
        53 => { macro_rules! blockquote_macro { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(blockquote_macro!(x), blockquote_macro!(x))) }
        54 => { macro_rules! h4_macro { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(h4_macro!(x), h4_macro![x])) }
        55 => { macro_rules! p_macro { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = p_macro!(x), b = p_macro!(x))) }
        56 => { macro_rules! div_end { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(div_end!(x), z = div_end!(x))) }
        57 => { macro_rules! bool_end { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { bool_end!(x) } else { bool_end![x] }))) }
        58 => { macro_rules! datalist_end { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(datalist_end!(x), id = datalist_end!(x))) }
        59 => { macro_rules! ins_end { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(ins_end!(x), ins_end![x])) }
        60 => { macro_rules! ruby_end { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(ruby_end!(x), ruby_end!(x))) }
        61 => { macro_rules! var_end { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = var_end!(x), b = var_end![x])) }
        62 => { macro_rules! img_end { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(img_end!(x)), img_end!(x))) }
        63 => { macro_rules! div__ { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { div__!(x) } else { div__!(x) }))) }
        64 => { macro_rules! menuitem__ { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(menuitem__!(x), id = menuitem__![x])) }
        65 => { macro_rules! strong__ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(strong__!(x), strong__!(x))) }
        66 => { macro_rules! area__ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(area__!(x), area__![x])) }
        67 => { macro_rules! meta__ { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = meta__!(x), b = meta__!(x))) }
        68 => { macro_rules! classes__ { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(classes__!(x)), classes__![x])) }
        69 => { macro_rules! blockquote__ { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = blockquote__!(x), br!(), (blockquote__!(x)))) }
        70 => { macro_rules! divx { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(divx!(x), id = divx!(x))) }
        71 => { macro_rules! colx { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(colx!(x), colx![x])) }
        72 => { macro_rules! trackx { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(trackx!(x), trackx!(x))) }
        73 => { macro_rules! boolx { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = boolx!(x), b = boolx![x])) }
        74 => { macro_rules! datalistx { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(datalistx!(x)), datalistx!(x))) }
        75 => { macro_rules! insx { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = insx!(x), br!(), (insx![x]))) }
        76 => { macro_rules! rubyx { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ rubyx!(x) }, span!(id = rubyx!(x)))) }
        77 => { macro_rules! dived { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(dived!(x), dived!(x))) }
        78 => { macro_rules! aed { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(aed!(x), aed![x])) }
        79 => { macro_rules! emed { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = emed!(x), b = emed!(x))) }
        80 => { macro_rules! menuitemed { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(menuitemed!(x)), menuitemed![x])) }
        81 => { macro_rules! stronged { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = stronged!(x), br!(), (stronged!(x)))) }
        82 => { macro_rules! areaed { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ areaed!(x) }, span!(id = areaed![x]))) }
        83 => { macro_rules! metaed { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", metaed!(x), classes!(metaed!(x)))) }
        84 => { macro_rules! diver { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(diver!(x), diver!(x))) }
        85 => { macro_rules! per { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = per!(x), b = per![x])) }
        86 => { macro_rules! textareaer { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(textareaer!(x)), textareaer!(x))) }
        87 => { macro_rules! coler { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = coler!(x), br!(), (coler![x]))) }
        88 => { macro_rules! tracker { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ tracker!(x) }, span!(id = tracker!(x)))) }
        89 => { macro_rules! booler { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", booler!(x), classes!(booler![x]))) }
        90 => { macro_rules! datalister { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(datalister!(x), z = datalister!(x))) }
        91 => { macro_rules! div_component { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = div_component!(x), b = div_component!(x))) }
        92 => { macro_rules! img_component { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(img_component!(x)), img_component![x])) }
        93 => { macro_rules! frag_component { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = frag_component!(x), br!(), (frag_component!(x)))) }
        94 => { macro_rules! a_component { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ a_component!(x) }, span!(id = a_component![x]))) }
        95 => { macro_rules! em_component { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", em_component!(x), classes!(em_component!(x)))) }
        96 => { macro_rules! menuitem_component { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(menuitem_component!(x), z = menuitem_component![x])) }
        97 => { macro_rules! strong_component { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { strong_component!(x) } else { strong_component!(x) }))) }
        98 => { macro_rules! div_item { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(div_item!(x)), div_item!(x))) }
        99 => { macro_rules! blockquote_item { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = blockquote_item!(x), br!(), (blockquote_item![x]))) }
        100 => { macro_rules! h4_item { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ h4_item!(x) }, span!(id = h4_item!(x)))) }
        101 => { macro_rules! p_item { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", p_item!(x), classes!(p_item![x]))) }
        102 => { macro_rules! textarea_item { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(textarea_item!(x), z = textarea_item!(x))) }
        103 => { macro_rules! col_item { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { col_item!(x) } else { col_item![x] }))) }
        104 => { macro_rules! track_item { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(track_item!(x), id = track_item!(x))) }
        105 => { macro_rules! div_of { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = div_of!(x), br!(), (div_of!(x)))) }
        106 => { macro_rules! ruby_of { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ ruby_of!(x) }, span!(id = ruby_of![x]))) }
        107 => { macro_rules! var_of { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", var_of!(x), classes!(var_of!(x)))) }
        108 => { macro_rules! img_of { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(img_of!(x), z = img_of![x])) }
        109 => { macro_rules! frag_of { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { frag_of!(x) } else { frag_of!(x) }))) }
        110 => { macro_rules! a_of { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(a_of!(x), id = a_of![x])) }
        111 => { macro_rules! em_of { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(em_of!(x), em_of!(x))) }
        112 => { macro_rules! div_inner { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ div_inner!(x) }, span!(id = div_inner!(x)))) }
        113 => { macro_rules! meta_inner { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", meta_inner!(x), classes!(meta_inner![x]))) }
        114 => { macro_rules! classes_inner { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(classes_inner!(x), z = classes_inner!(x))) }
        115 => { macro_rules! blockquote_inner { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { blockquote_inner!(x) } else { blockquote_inner![x] }))) }
        116 => { macro_rules! h4_inner { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(h4_inner!(x), id = h4_inner!(x))) }
        117 => { macro_rules! p_inner { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(p_inner!(x), p_inner![x])) }
        118 => { macro_rules! textarea_inner { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(textarea_inner!(x), textarea_inner!(x))) }
        119 => { macro_rules! div_row { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", div_row!(x), classes!(div_row!(x)))) }
        120 => { macro_rules! datalist_row { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(datalist_row!(x), z = datalist_row![x])) }
        121 => { macro_rules! ins_row { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { ins_row!(x) } else { ins_row!(x) }))) }
        122 => { macro_rules! ruby_row { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(ruby_row!(x), id = ruby_row![x])) }
        123 => { macro_rules! var_row { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(var_row!(x), var_row!(x))) }
        124 => { macro_rules! img_row { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(img_row!(x), img_row![x])) }
        125 => { macro_rules! frag_row { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = frag_row!(x), b = frag_row!(x))) }
        126 => { macro_rules! div_list { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(div_list!(x), z = div_list!(x))) }
        127 => { macro_rules! strong_list { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { strong_list!(x) } else { strong_list![x] }))) }
        128 => { macro_rules! area_list { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(area_list!(x), id = area_list!(x))) }
        129 => { macro_rules! meta_list { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(meta_list!(x), meta_list![x])) }
        130 => { macro_rules! classes_list { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(classes_list!(x), classes_list!(x))) }
        131 => { macro_rules! blockquote_list { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = blockquote_list!(x), b = blockquote_list![x])) }
        132 => { macro_rules! h4_list { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(h4_list!(x)), h4_list!(x))) }
        133 => { macro_rules! div_block { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { div_block!(x) } else { div_block!(x) }))) }
        134 => { macro_rules! track_block { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(track_block!(x), id = track_block![x])) }
        135 => { macro_rules! bool_block { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(bool_block!(x), bool_block!(x))) }
        136 => { macro_rules! datalist_block { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(datalist_block!(x), datalist_block![x])) }
        137 => { macro_rules! ins_block { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = ins_block!(x), b = ins_block!(x))) }
        138 => { macro_rules! ruby_block { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(ruby_block!(x)), ruby_block![x])) }
        _ => { macro_rules! var_block { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = var_block!(x), br!(), (var_block!(x)))) } } }
    h_18_nearx01(b) { let x = t(1); let k = bool_(); match choose(140) { 0 => { macro_rules! div_0 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(div_0!(x), id = div_0!(x))) }
        1 => { macro_rules! em_0 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(em_0!(x), em_0![x])) }
        2 => { macro_rules! menuitem_0 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(menuitem_0!(x), menuitem_0!(x))) }
        3 => { macro_rules! strong_0 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = strong_0!(x), b = strong_0![x])) }
        4 => { macro_rules! area_0 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(area_0!(x)), area_0!(x))) }
        5 => { macro_rules! meta_0 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = meta_0!(x), br!(), (meta_0![x]))) }
        6 => { macro_rules! classes_0 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ classes_0!(x) }, span!(id = classes_0!(x)))) }
        7 => { macro_rules! div_s { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(div_s!(x), div_s!(x))) }
        8 => { macro_rules! textarea_s { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(textarea_s!(x), textarea_s![x])) }
        9 => { macro_rules! col_s { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = col_s!(x), b = col_s!(x))) }
        10 => { macro_rules! track_s { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(track_s!(x)), track_s![x])) }
        11 => { macro_rules! bool_s { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = bool_s!(x), br!(), (bool_s!(x)))) }
        12 => { macro_rules! datalist_s { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ datalist_s!(x) }, span!(id = datalist_s![x]))) }
        13 => { macro_rules! ins_s { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", ins_s!(x), classes!(ins_s!(x)))) }
        14 => { macro_rules! divel { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(divel!(x), divel!(x))) }
        15 => { macro_rules! fragel { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = fragel!(x), b = fragel![x])) }
        16 => { macro_rules! ael { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(ael!(x)), ael!(x))) }
        17 => { macro_rules! emel { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = emel!(x), br!(), (emel![x]))) }
        18 => { macro_rules! menuitemel { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ menuitemel!(x) }, span!(id = menuitemel!(x)))) }
        19 => { macro_rules! strongel { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", strongel!(x), classes!(strongel![x]))) }
        20 => { macro_rules! areael { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(areael!(x), z = areael!(x))) }
        21 => { macro_rules! divTag { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = divTag!(x), b = divTag!(x))) }
        22 => { macro_rules! h4Tag { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(h4Tag!(x)), h4Tag![x])) }
        23 => { macro_rules! pTag { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = pTag!(x), br!(), (pTag!(x)))) }
        24 => { macro_rules! textareaTag { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ textareaTag!(x) }, span!(id = textareaTag![x]))) }
        25 => { macro_rules! colTag { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", colTag!(x), classes!(colTag!(x)))) }
        26 => { macro_rules! trackTag { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(trackTag!(x), z = trackTag![x])) }
        27 => { macro_rules! boolTag { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { boolTag!(x) } else { boolTag!(x) }))) }
        28 => { macro_rules! divElement { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(divElement!(x)), divElement!(x))) }
        29 => { macro_rules! varElement { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = varElement!(x), br!(), (varElement![x]))) }
        30 => { macro_rules! imgElement { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ imgElement!(x) }, span!(id = imgElement!(x)))) }
        31 => { macro_rules! fragElement { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", fragElement!(x), classes!(fragElement![x]))) }
        32 => { macro_rules! aElement { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(aElement!(x), z = aElement!(x))) }
        33 => { macro_rules! emElement { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { emElement!(x) } else { emElement![x] }))) }
        34 => { macro_rules! menuitemElement { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(menuitemElement!(x), id = menuitemElement!(x))) }
        35 => { macro_rules! div_link { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = div_link!(x), br!(), (div_link!(x)))) }
        36 => { macro_rules! classes_link { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ classes_link!(x) }, span!(id = classes_link![x]))) }
        37 => { macro_rules! blockquote_link { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", blockquote_link!(x), classes!(blockquote_link!(x)))) }
        38 => { macro_rules! h4_link { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(h4_link!(x), z = h4_link![x])) }
        39 => { macro_rules! p_link { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { p_link!(x) } else { p_link!(x) }))) }
        40 => { macro_rules! textarea_link { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(textarea_link!(x), id = textarea_link![x])) }
        41 => { macro_rules! col_link { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(col_link!(x), col_link!(x))) }
        42 => { macro_rules! div_text { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ div_text!(x) }, span!(id = div_text!(x)))) }
        43 => { macro_rules! ins_text { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", ins_text!(x), classes!(ins_text![x]))) }
        44 => { macro_rules! ruby_text { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(ruby_text!(x), z = ruby_text!(x))) }
        45 => { macro_rules! var_text { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { var_text!(x) } else { var_text![x] }))) }
        46 => { macro_rules! img_text { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(img_text!(x), id = img_text!(x))) }
        47 => { macro_rules! frag_text { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(frag_text!(x), frag_text![x])) }
        48 => { macro_rules! a_text { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(a_text!(x), a_text!(x))) }
        49 => { macro_rules! divly { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", divly!(x), classes!(divly!(x)))) }
        50 => { macro_rules! arealy { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(arealy!(x), z = arealy![x])) }
        51 => { macro_rules! metaly { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { metaly!(x) } else { metaly!(x) }))) }
        52 => { macro_rules! classesly { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(classesly!(x), id = classesly![x])) }
        53 => { macro_rules! blockquotely { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(blockquotely!(x), blockquotely!(x))) }
        54 => { macro_rules! h4ly { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(h4ly!(x), h4ly![x])) }
        55 => { macro_rules! ply { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = ply!(x), b = ply!(x))) }
        56 => { macro_rules! diving { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(diving!(x), z = diving!(x))) }
        57 => { macro_rules! booling { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { booling!(x) } else { booling![x] }))) }
        58 => { macro_rules! datalisting { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(datalisting!(x), id = datalisting!(x))) }
        59 => { macro_rules! insing { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(insing!(x), insing![x])) }
        60 => { macro_rules! rubying { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(rubying!(x), rubying!(x))) }
        61 => { macro_rules! varing { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = varing!(x), b = varing![x])) }
        62 => { macro_rules! imging { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(imging!(x)), imging!(x))) }
        63 => { macro_rules! el_div { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { el_div!(x) } else { el_div!(x) }))) }
        64 => { macro_rules! el_menuitem { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(el_menuitem!(x), id = el_menuitem![x])) }
        65 => { macro_rules! el_strong { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(el_strong!(x), el_strong!(x))) }
        66 => { macro_rules! el_area { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(el_area!(x), el_area![x])) }
        67 => { macro_rules! el_meta { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = el_meta!(x), b = el_meta!(x))) }
        68 => { macro_rules! el_classes { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(el_classes!(x)), el_classes![x])) }
        69 => { macro_rules! el_blockquote { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = el_blockquote!(x), br!(), (el_blockquote!(x)))) }
        70 => { macro_rules! tag_div { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(tag_div!(x), id = tag_div!(x))) }
        71 => { macro_rules! tag_col { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(tag_col!(x), tag_col![x])) }
        72 => { macro_rules! tag_track { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(tag_track!(x), tag_track!(x))) }
        73 => { macro_rules! tag_bool { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = tag_bool!(x), b = tag_bool![x])) }
        74 => { macro_rules! tag_datalist { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(tag_datalist!(x)), tag_datalist!(x))) }
        75 => { macro_rules! tag_ins { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = tag_ins!(x), br!(), (tag_ins![x]))) }
        76 => { macro_rules! tag_ruby { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ tag_ruby!(x) }, span!(id = tag_ruby!(x)))) }
        77 => { macro_rules! element_div { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(element_div!(x), element_div!(x))) }
        78 => { macro_rules! element_a { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(element_a!(x), element_a![x])) }
        79 => { macro_rules! element_em { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = element_em!(x), b = element_em!(x))) }
        80 => { macro_rules! element_menuitem { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(element_menuitem!(x)), element_menuitem![x])) }
        81 => { macro_rules! element_strong { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = element_strong!(x), br!(), (element_strong!(x)))) }
        82 => { macro_rules! element_area { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ element_area!(x) }, span!(id = element_area![x]))) }
        83 => { macro_rules! element_meta { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", element_meta!(x), classes!(element_meta!(x)))) }
        84 => { macro_rules! h_div { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(h_div!(x), h_div!(x))) }
        85 => { macro_rules! h_p { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = h_p!(x), b = h_p![x])) }
        86 => { macro_rules! h_textarea { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(h_textarea!(x)), h_textarea!(x))) }
        87 => { macro_rules! h_col { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = h_col!(x), br!(), (h_col![x]))) }
        88 => { macro_rules! h_track { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ h_track!(x) }, span!(id = h_track!(x)))) }
        89 => { macro_rules! h_bool { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", h_bool!(x), classes!(h_bool![x]))) }
        90 => { macro_rules! h_datalist { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(h_datalist!(x), z = h_datalist!(x))) }
        91 => { macro_rules! x_div { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = x_div!(x), b = x_div!(x))) }
        92 => { macro_rules! x_img { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(x_img!(x)), x_img![x])) }
        93 => { macro_rules! x_frag { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = x_frag!(x), br!(), (x_frag!(x)))) }
        94 => { macro_rules! x_a { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ x_a!(x) }, span!(id = x_a![x]))) }
        95 => { macro_rules! x_em { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", x_em!(x), classes!(x_em!(x)))) }
        96 => { macro_rules! x_menuitem { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(x_menuitem!(x), z = x_menuitem![x])) }
        97 => { macro_rules! x_strong { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { x_strong!(x) } else { x_strong!(x) }))) }
        98 => { macro_rules! html5_div { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(html5_div!(x)), html5_div!(x))) }
        99 => { macro_rules! html5_blockquote { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = html5_blockquote!(x), br!(), (html5_blockquote![x]))) }
        100 => { macro_rules! html5_h4 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ html5_h4!(x) }, span!(id = html5_h4!(x)))) }
        101 => { macro_rules! html5_p { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", html5_p!(x), classes!(html5_p![x]))) }
        102 => { macro_rules! html5_textarea { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(html5_textarea!(x), z = html5_textarea!(x))) }
        103 => { macro_rules! html5_col { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { html5_col!(x) } else { html5_col![x] }))) }
        104 => { macro_rules! html5_track { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(html5_track!(x), id = html5_track!(x))) }
        105 => { macro_rules! laby_div { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = laby_div!(x), br!(), (laby_div!(x)))) }
        106 => { macro_rules! laby_ruby { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ laby_ruby!(x) }, span!(id = laby_ruby![x]))) }
        107 => { macro_rules! laby_var { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", laby_var!(x), classes!(laby_var!(x)))) }
        108 => { macro_rules! laby_img { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(laby_img!(x), z = laby_img![x])) }
        109 => { macro_rules! laby_frag { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { laby_frag!(x) } else { laby_frag!(x) }))) }
        110 => { macro_rules! laby_a { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(laby_a!(x), id = laby_a![x])) }
        111 => { macro_rules! laby_em { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(laby_em!(x), laby_em!(x))) }
        112 => { macro_rules! svg_div { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ svg_div!(x) }, span!(id = svg_div!(x)))) }
        113 => { macro_rules! svg_meta { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", svg_meta!(x), classes!(svg_meta![x]))) }
        114 => { macro_rules! svg_classes { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(svg_classes!(x), z = svg_classes!(x))) }
        115 => { macro_rules! svg_blockquote { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { svg_blockquote!(x) } else { svg_blockquote![x] }))) }
        116 => { macro_rules! svg_h4 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(svg_h4!(x), id = svg_h4!(x))) }
        117 => { macro_rules! svg_p { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(svg_p!(x), svg_p![x])) }
        118 => { macro_rules! svg_textarea { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(svg_textarea!(x), svg_textarea!(x))) }
        119 => { macro_rules! the_div { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", the_div!(x), classes!(the_div!(x)))) }
        120 => { macro_rules! the_datalist { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(the_datalist!(x), z = the_datalist![x])) }
        121 => { macro_rules! the_ins { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { the_ins!(x) } else { the_ins!(x) }))) }
        122 => { macro_rules! the_ruby { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(the_ruby!(x), id = the_ruby![x])) }
        123 => { macro_rules! the_var { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(the_var!(x), the_var!(x))) }
        124 => { macro_rules! the_img { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(the_img!(x), the_img![x])) }
        125 => { macro_rules! the_frag { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = the_frag!(x), b = the_frag!(x))) }
        126 => { macro_rules! a_div { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(a_div!(x), z = a_div!(x))) }
        127 => { macro_rules! a_strong { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { a_strong!(x) } else { a_strong![x] }))) }
        128 => { macro_rules! a_area { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(a_area!(x), id = a_area!(x))) }
        129 => { macro_rules! a_meta { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(a_meta!(x), a_meta![x])) }
        130 => { macro_rules! a_classes { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(a_classes!(x), a_classes!(x))) }
        131 => { macro_rules! a_blockquote { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = a_blockquote!(x), b = a_blockquote![x])) }
        132 => { macro_rules! a_h4 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(a_h4!(x)), a_h4!(x))) }
        133 => { macro_rules! __div { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { __div!(x) } else { __div!(x) }))) }
        134 => { macro_rules! __track { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(__track!(x), id = __track![x])) }
        135 => { macro_rules! __bool { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(__bool!(x), __bool!(x))) }
        136 => { macro_rules! __datalist { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(__datalist!(x), __datalist![x])) }
        137 => { macro_rules! __ins { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = __ins!(x), b = __ins!(x))) }
        138 => { macro_rules! __ruby { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(__ruby!(x)), __ruby![x])) }
        _ => { macro_rules! __var { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = __var!(x), br!(), (__var!(x)))) } } }
    h_18_nearx02(b) { let x = t(1); let k = bool_(); match choose(139) { 0 => { macro_rules! no_div { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(no_div!(x), id = no_div!(x))) }
        1 => { macro_rules! no_em { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(no_em!(x), no_em![x])) }
        2 => { macro_rules! no_menuitem { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(no_menuitem!(x), no_menuitem!(x))) }
        3 => { macro_rules! no_strong { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = no_strong!(x), b = no_strong![x])) }
        4 => { macro_rules! no_area { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(no_area!(x)), no_area!(x))) }
        5 => { macro_rules! no_meta { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = no_meta!(x), br!(), (no_meta![x]))) }
        6 => { macro_rules! no_classes { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ no_classes!(x) }, span!(id = no_classes!(x)))) }
        7 => { macro_rules! new_div { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(new_div!(x), new_div!(x))) }
        8 => { macro_rules! new_textarea { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(new_textarea!(x), new_textarea![x])) }
        9 => { macro_rules! new_col { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = new_col!(x), b = new_col!(x))) }
        10 => { macro_rules! new_track { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(new_track!(x)), new_track![x])) }
        11 => { macro_rules! new_bool { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = new_bool!(x), br!(), (new_bool!(x)))) }
        12 => { macro_rules! new_datalist { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ new_datalist!(x) }, span!(id = new_datalist![x]))) }
        13 => { macro_rules! new_ins { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", new_ins!(x), classes!(new_ins!(x)))) }
        14 => { macro_rules! undiv { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(undiv!(x), undiv!(x))) }
        15 => { macro_rules! unfrag { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = unfrag!(x), b = unfrag![x])) }
        16 => { macro_rules! una { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(una!(x)), una!(x))) }
        17 => { macro_rules! unmenuitem { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ unmenuitem!(x) }, span!(id = unmenuitem!(x)))) }
        18 => { macro_rules! unstrong { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", unstrong!(x), classes!(unstrong![x]))) }
        19 => { macro_rules! unarea { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(unarea!(x), z = unarea!(x))) }
        20 => { macro_rules! sub_div { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = sub_div!(x), b = sub_div!(x))) }
        21 => { macro_rules! sub_h4 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(sub_h4!(x)), sub_h4![x])) }
        22 => { macro_rules! sub_p { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = sub_p!(x), br!(), (sub_p!(x)))) }
        23 => { macro_rules! sub_textarea { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ sub_textarea!(x) }, span!(id = sub_textarea![x]))) }
        24 => { macro_rules! sub_col { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", sub_col!(x), classes!(sub_col!(x)))) }
        25 => { macro_rules! sub_track { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(sub_track!(x), z = sub_track![x])) }
        26 => { macro_rules! sub_bool { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { sub_bool!(x) } else { sub_bool!(x) }))) }
        27 => { macro_rules! Htmldiv { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(Htmldiv!(x)), Htmldiv!(x))) }
        28 => { macro_rules! Htmlvar { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = Htmlvar!(x), br!(), (Htmlvar![x]))) }
        29 => { macro_rules! Htmlimg { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ Htmlimg!(x) }, span!(id = Htmlimg!(x)))) }
        30 => { macro_rules! Htmlfrag { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", Htmlfrag!(x), classes!(Htmlfrag![x]))) }
        31 => { macro_rules! Htmla { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(Htmla!(x), z = Htmla!(x))) }
        32 => { macro_rules! Htmlem { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { Htmlem!(x) } else { Htmlem![x] }))) }
        33 => { macro_rules! Htmlmenuitem { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(Htmlmenuitem!(x), id = Htmlmenuitem!(x))) }
        34 => { macro_rules! inner_div { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = inner_div!(x), br!(), (inner_div!(x)))) }
        35 => { macro_rules! inner_classes { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ inner_classes!(x) }, span!(id = inner_classes![x]))) }
        36 => { macro_rules! inner_blockquote { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", inner_blockquote!(x), classes!(inner_blockquote!(x)))) }
        37 => { macro_rules! inner_h4 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(inner_h4!(x), z = inner_h4![x])) }
        38 => { macro_rules! inner_p { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { inner_p!(x) } else { inner_p!(x) }))) }
        39 => { macro_rules! inner_textarea { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(inner_textarea!(x), id = inner_textarea![x])) }
        40 => { macro_rules! inner_col { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(inner_col!(x), inner_col!(x))) }
        41 => { macro_rules! is_div { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ is_div!(x) }, span!(id = is_div!(x)))) }
        42 => { macro_rules! is_ins { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", is_ins!(x), classes!(is_ins![x]))) }
        43 => { macro_rules! is_ruby { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(is_ruby!(x), z = is_ruby!(x))) }
        44 => { macro_rules! is_var { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { is_var!(x) } else { is_var![x] }))) }
        45 => { macro_rules! is_img { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(is_img!(x), id = is_img!(x))) }
        46 => { macro_rules! is_frag { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(is_frag!(x), is_frag![x])) }
        47 => { macro_rules! is_a { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(is_a!(x), is_a!(x))) }
        48 => { macro_rules! r_div { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", r_div!(x), classes!(r_div!(x)))) }
        49 => { macro_rules! r_area { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(r_area!(x), z = r_area![x])) }
        50 => { macro_rules! r_meta { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { r_meta!(x) } else { r_meta!(x) }))) }
        51 => { macro_rules! r_classes { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(r_classes!(x), id = r_classes![x])) }
        52 => { macro_rules! r_blockquote { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(r_blockquote!(x), r_blockquote!(x))) }
        53 => { macro_rules! r_h4 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(r_h4!(x), r_h4![x])) }
        54 => { macro_rules! r_p { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = r_p!(x), b = r_p!(x))) }
        55 => { macro_rules! w3div { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(w3div!(x), z = w3div!(x))) }
        56 => { macro_rules! w3bool { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { w3bool!(x) } else { w3bool![x] }))) }
        57 => { macro_rules! w3datalist { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(w3datalist!(x), id = w3datalist!(x))) }
        58 => { macro_rules! w3ins { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(w3ins!(x), w3ins![x])) }
        59 => { macro_rules! w3ruby { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(w3ruby!(x), w3ruby!(x))) }
        60 => { macro_rules! w3var { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = w3var!(x), b = w3var![x])) }
        61 => { macro_rules! w3img { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(w3img!(x)), w3img!(x))) }
        62 => { macro_rules! htmldiv { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { htmldiv!(x) } else { htmldiv!(x) }))) }
        63 => { macro_rules! htmlmenuitem { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(htmlmenuitem!(x), id = htmlmenuitem![x])) }
        64 => { macro_rules! htmlstrong { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(htmlstrong!(x), htmlstrong!(x))) }
        65 => { macro_rules! htmlarea { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(htmlarea!(x), htmlarea![x])) }
        66 => { macro_rules! htmlmeta { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = htmlmeta!(x), b = htmlmeta!(x))) }
        67 => { macro_rules! htmlclasses { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(htmlclasses!(x)), htmlclasses![x])) }
        68 => { macro_rules! htmlblockquote { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = htmlblockquote!(x), br!(), (htmlblockquote!(x)))) }
        69 => { macro_rules! void_div { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(void_div!(x), id = void_div!(x))) }
        70 => { macro_rules! void_col { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(void_col!(x), void_col![x])) }
        71 => { macro_rules! void_track { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(void_track!(x), void_track!(x))) }
        72 => { macro_rules! void_bool { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = void_bool!(x), b = void_bool![x])) }
        73 => { macro_rules! void_datalist { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(void_datalist!(x)), void_datalist!(x))) }
        74 => { macro_rules! void_ins { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = void_ins!(x), br!(), (void_ins![x]))) }
        75 => { macro_rules! void_ruby { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ void_ruby!(x) }, span!(id = void_ruby!(x)))) }
        76 => { macro_rules! ediv { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(ediv!(x), ediv!(x))) }
        77 => { macro_rules! ea { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(ea!(x), ea![x])) }
        78 => { macro_rules! eem { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = eem!(x), b = eem!(x))) }
        79 => { macro_rules! emenuitem { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(emenuitem!(x)), emenuitem![x])) }
        80 => { macro_rules! estrong { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = estrong!(x), br!(), (estrong!(x)))) }
        81 => { macro_rules! earea { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ earea!(x) }, span!(id = earea![x]))) }
        82 => { macro_rules! emeta { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", emeta!(x), classes!(emeta!(x)))) }
        83 => { macro_rules! node_div { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(node_div!(x), node_div!(x))) }
        84 => { macro_rules! node_p { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = node_p!(x), b = node_p![x])) }
        85 => { macro_rules! node_textarea { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(node_textarea!(x)), node_textarea!(x))) }
        86 => { macro_rules! node_col { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = node_col!(x), br!(), (node_col![x]))) }
        87 => { macro_rules! node_track { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ node_track!(x) }, span!(id = node_track!(x)))) }
        88 => { macro_rules! node_bool { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", node_bool!(x), classes!(node_bool![x]))) }
        89 => { macro_rules! node_datalist { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(node_datalist!(x), z = node_datalist!(x))) }
        90 => { macro_rules! make_div { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = make_div!(x), b = make_div!(x))) }
        91 => { macro_rules! make_img { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(make_img!(x)), make_img![x])) }
        92 => { macro_rules! make_frag { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = make_frag!(x), br!(), (make_frag!(x)))) }
        93 => { macro_rules! make_a { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ make_a!(x) }, span!(id = make_a![x]))) }
        94 => { macro_rules! make_em { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", make_em!(x), classes!(make_em!(x)))) }
        95 => { macro_rules! make_menuitem { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(make_menuitem!(x), z = make_menuitem![x])) }
        96 => { macro_rules! make_strong { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { make_strong!(x) } else { make_strong!(x) }))) }
        97 => { macro_rules! get_div { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(get_div!(x)), get_div!(x))) }
        98 => { macro_rules! get_blockquote { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = get_blockquote!(x), br!(), (get_blockquote![x]))) }
        99 => { macro_rules! get_h4 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ get_h4!(x) }, span!(id = get_h4!(x)))) }
        100 => { macro_rules! get_p { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", get_p!(x), classes!(get_p![x]))) }
        101 => { macro_rules! get_textarea { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(get_textarea!(x), z = get_textarea!(x))) }
        102 => { macro_rules! get_col { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { get_col!(x) } else { get_col![x] }))) }
        103 => { macro_rules! get_track { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(get_track!(x), id = get_track!(x))) }
        104 => { macro_rules! as_div { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = as_div!(x), br!(), (as_div!(x)))) }
        105 => { macro_rules! as_ruby { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ as_ruby!(x) }, span!(id = as_ruby![x]))) }
        106 => { macro_rules! as_var { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", as_var!(x), classes!(as_var!(x)))) }
        107 => { macro_rules! as_img { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(as_img!(x), z = as_img![x])) }
        108 => { macro_rules! as_frag { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { as_frag!(x) } else { as_frag!(x) }))) }
        109 => { macro_rules! as_a { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(as_a!(x), id = as_a![x])) }
        110 => { macro_rules! as_em { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(as_em!(x), as_em!(x))) }
        111 => { macro_rules! to_div { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ to_div!(x) }, span!(id = to_div!(x)))) }
        112 => { macro_rules! to_meta { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", to_meta!(x), classes!(to_meta![x]))) }
        113 => { macro_rules! to_classes { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(to_classes!(x), z = to_classes!(x))) }
        114 => { macro_rules! to_blockquote { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { to_blockquote!(x) } else { to_blockquote![x] }))) }
        115 => { macro_rules! to_h4 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(to_h4!(x), id = to_h4!(x))) }
        116 => { macro_rules! to_p { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(to_p!(x), to_p![x])) }
        117 => { macro_rules! to_textarea { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(to_textarea!(x), to_textarea!(x))) }
        118 => { macro_rules! xdiv2 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", xdiv2!(x), classes!(xdiv2!(x)))) }
        119 => { macro_rules! xdatalist2 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(xdatalist2!(x), z = xdatalist2![x])) }
        120 => { macro_rules! xins2 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { xins2!(x) } else { xins2!(x) }))) }
        121 => { macro_rules! xruby2 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(xruby2!(x), id = xruby2![x])) }
        122 => { macro_rules! xvar2 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(xvar2!(x), xvar2!(x))) }
        123 => { macro_rules! ximg2 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(ximg2!(x), ximg2![x])) }
        124 => { macro_rules! xfrag2 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = xfrag2!(x), b = xfrag2!(x))) }
        125 => { macro_rules! _div_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(_div_!(x), z = _div_!(x))) }
        126 => { macro_rules! _strong_ { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { _strong_!(x) } else { _strong_![x] }))) }
        127 => { macro_rules! _area_ { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(_area_!(x), id = _area_!(x))) }
        128 => { macro_rules! _meta_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(_meta_!(x), _meta_![x])) }
        129 => { macro_rules! _classes_ { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(_classes_!(x), _classes_!(x))) }
        130 => { macro_rules! _blockquote_ { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = _blockquote_!(x), b = _blockquote_![x])) }
        131 => { macro_rules! _h4_ { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(_h4_!(x)), _h4_!(x))) }
        132 => { macro_rules! p_div { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { p_div!(x) } else { p_div!(x) }))) }
        133 => { macro_rules! p_track { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(p_track!(x), id = p_track![x])) }
        134 => { macro_rules! p_bool { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(p_bool!(x), p_bool!(x))) }
        135 => { macro_rules! p_datalist { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(p_datalist!(x), p_datalist![x])) }
        136 => { macro_rules! p_ins { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = p_ins!(x), b = p_ins!(x))) }
        137 => { macro_rules! p_ruby { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(p_ruby!(x)), p_ruby![x])) }
        _ => { macro_rules! p_var { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = p_var!(x), br!(), (p_var!(x)))) } } }
    h_18_nearx03(b) { let x = t(1); let k = bool_(); match choose(119) { 0 => { macro_rules! div_p { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(div_p!(x), id = div_p!(x))) }
        1 => { macro_rules! em_p { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(em_p!(x), em_p![x])) }
        2 => { macro_rules! menuitem_p { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(menuitem_p!(x), menuitem_p!(x))) }
        3 => { macro_rules! strong_p { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = strong_p!(x), b = strong_p![x])) }
        4 => { macro_rules! area_p { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(area_p!(x)), area_p!(x))) }
        5 => { macro_rules! meta_p { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = meta_p!(x), br!(), (meta_p![x]))) }
        6 => { macro_rules! classes_p { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ classes_p!(x) }, span!(id = classes_p!(x)))) }
        7 => { macro_rules! div_textarea { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(div_textarea!(x), div_textarea![x])) }
        8 => { macro_rules! div_col { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = div_col!(x), b = div_col!(x))) }
        9 => { macro_rules! div_track { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(div_track!(x)), div_track![x])) }
        10 => { macro_rules! div_bool { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = div_bool!(x), br!(), (div_bool!(x)))) }
        11 => { macro_rules! div_datalist { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ div_datalist!(x) }, span!(id = div_datalist![x]))) }
        12 => { macro_rules! div_ins { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", div_ins!(x), classes!(div_ins!(x)))) }
        13 => { macro_rules! frag_div { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = frag_div!(x), b = frag_div![x])) }
        14 => { macro_rules! em_div { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = em_div!(x), br!(), (em_div![x]))) }
        15 => { macro_rules! menuitem_div { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ menuitem_div!(x) }, span!(id = menuitem_div!(x)))) }
        16 => { macro_rules! strong_div { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", strong_div!(x), classes!(strong_div![x]))) }
        17 => { macro_rules! area_div { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(area_div!(x), z = area_div!(x))) }
        18 => { macro_rules! div_frag { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = div_frag!(x), b = div_frag!(x))) }
        19 => { macro_rules! h4_frag { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(h4_frag!(x)), h4_frag![x])) }
        20 => { macro_rules! p_frag { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = p_frag!(x), br!(), (p_frag!(x)))) }
        21 => { macro_rules! textarea_frag { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ textarea_frag!(x) }, span!(id = textarea_frag![x]))) }
        22 => { macro_rules! col_frag { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", col_frag!(x), classes!(col_frag!(x)))) }
        23 => { macro_rules! track_frag { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(track_frag!(x), z = track_frag![x])) }
        24 => { macro_rules! bool_frag { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { bool_frag!(x) } else { bool_frag!(x) }))) }
        25 => { macro_rules! frag_var { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = frag_var!(x), br!(), (frag_var![x]))) }
        26 => { macro_rules! frag_img { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ frag_img!(x) }, span!(id = frag_img!(x)))) }
        27 => { macro_rules! frag_a { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(frag_a!(x), z = frag_a!(x))) }
        28 => { macro_rules! frag_em { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { frag_em!(x) } else { frag_em![x] }))) }
        29 => { macro_rules! frag_menuitem { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(frag_menuitem!(x), id = frag_menuitem!(x))) }
        30 => { macro_rules! classes_bool { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ classes_bool!(x) }, span!(id = classes_bool![x]))) }
        31 => { macro_rules! blockquote_bool { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", blockquote_bool!(x), classes!(blockquote_bool!(x)))) }
        32 => { macro_rules! h4_bool { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(h4_bool!(x), z = h4_bool![x])) }
        33 => { macro_rules! textarea_bool { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(textarea_bool!(x), id = textarea_bool![x])) }
        34 => { macro_rules! col_bool { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(col_bool!(x), col_bool!(x))) }
        35 => { macro_rules! div_raw { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ div_raw!(x) }, span!(id = div_raw!(x)))) }
        36 => { macro_rules! ins_raw { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", ins_raw!(x), classes!(ins_raw![x]))) }
        37 => { macro_rules! ruby_raw { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(ruby_raw!(x), z = ruby_raw!(x))) }
        38 => { macro_rules! var_raw { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { var_raw!(x) } else { var_raw![x] }))) }
        39 => { macro_rules! img_raw { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(img_raw!(x), id = img_raw!(x))) }
        40 => { macro_rules! frag_raw { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(frag_raw!(x), frag_raw![x])) }
        41 => { macro_rules! a_raw { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(a_raw!(x), a_raw!(x))) }
        42 => { macro_rules! idiv { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", idiv!(x), classes!(idiv!(x)))) }
        43 => { macro_rules! iarea { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(iarea!(x), z = iarea![x])) }
        44 => { macro_rules! imeta { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { imeta!(x) } else { imeta!(x) }))) }
        45 => { macro_rules! iclasses { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(iclasses!(x), id = iclasses![x])) }
        46 => { macro_rules! iblockquote { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(iblockquote!(x), iblockquote!(x))) }
        47 => { macro_rules! ih4 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(ih4!(x), ih4![x])) }
        48 => { macro_rules! ip { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = ip!(x), b = ip!(x))) }
        49 => { macro_rules! hdiv { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(hdiv!(x), z = hdiv!(x))) }
        50 => { macro_rules! hbool { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { hbool!(x) } else { hbool![x] }))) }
        51 => { macro_rules! hdatalist { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(hdatalist!(x), id = hdatalist!(x))) }
        52 => { macro_rules! hins { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(hins!(x), hins![x])) }
        53 => { macro_rules! hruby { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(hruby!(x), hruby!(x))) }
        54 => { macro_rules! hvar { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = hvar!(x), b = hvar![x])) }
        55 => { macro_rules! himg { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(himg!(x)), himg!(x))) }
        56 => { macro_rules! div0 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(div0!(x), id = div0!(x))) }
        57 => { macro_rules! col0 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(col0!(x), col0![x])) }
        58 => { macro_rules! track0 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(track0!(x), track0!(x))) }
        59 => { macro_rules! bool0 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = bool0!(x), b = bool0![x])) }
        60 => { macro_rules! datalist0 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(datalist0!(x)), datalist0!(x))) }
        61 => { macro_rules! ins0 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = ins0!(x), br!(), (ins0![x]))) }
        62 => { macro_rules! ruby0 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ ruby0!(x) }, span!(id = ruby0!(x)))) }
        63 => { macro_rules! Odiv { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(Odiv!(x), Odiv!(x))) }
        64 => { macro_rules! Oa { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(Oa!(x), Oa![x])) }
        65 => { macro_rules! Oem { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = Oem!(x), b = Oem!(x))) }
        66 => { macro_rules! Omenuitem { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(Omenuitem!(x)), Omenuitem![x])) }
        67 => { macro_rules! Ostrong { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = Ostrong!(x), br!(), (Ostrong!(x)))) }
        68 => { macro_rules! Oarea { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ Oarea!(x) }, span!(id = Oarea![x]))) }
        69 => { macro_rules! Ometa { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", Ometa!(x), classes!(Ometa!(x)))) }
        70 => { macro_rules! div_a { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(div_a!(x), div_a!(x))) }
        71 => { macro_rules! p_a { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = p_a!(x), b = p_a![x])) }
        72 => { macro_rules! textarea_a { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(textarea_a!(x)), textarea_a!(x))) }
        73 => { macro_rules! col_a { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = col_a!(x), br!(), (col_a![x]))) }
        74 => { macro_rules! track_a { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ track_a!(x) }, span!(id = track_a!(x)))) }
        75 => { macro_rules! bool_a { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", bool_a!(x), classes!(bool_a![x]))) }
        76 => { macro_rules! datalist_a { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(datalist_a!(x), z = datalist_a!(x))) }
        77 => { macro_rules! div_html5 { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = div_html5!(x), b = div_html5!(x))) }
        78 => { macro_rules! img_html5 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(img_html5!(x)), img_html5![x])) }
        79 => { macro_rules! frag_html5 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = frag_html5!(x), br!(), (frag_html5!(x)))) }
        80 => { macro_rules! a_html5 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ a_html5!(x) }, span!(id = a_html5![x]))) }
        81 => { macro_rules! em_html5 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", em_html5!(x), classes!(em_html5!(x)))) }
        82 => { macro_rules! menuitem_html5 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(menuitem_html5!(x), z = menuitem_html5![x])) }
        83 => { macro_rules! strong_html5 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { strong_html5!(x) } else { strong_html5!(x) }))) }
        84 => { macro_rules! div_v2 { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(div_v2!(x)), div_v2!(x))) }
        85 => { macro_rules! blockquote_v2 { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = blockquote_v2!(x), br!(), (blockquote_v2![x]))) }
        86 => { macro_rules! h4_v2 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ h4_v2!(x) }, span!(id = h4_v2!(x)))) }
        87 => { macro_rules! p_v2 { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", p_v2!(x), classes!(p_v2![x]))) }
        88 => { macro_rules! textarea_v2 { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(textarea_v2!(x), z = textarea_v2!(x))) }
        89 => { macro_rules! col_v2 { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { col_v2!(x) } else { col_v2![x] }))) }
        90 => { macro_rules! track_v2 { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(track_v2!(x), id = track_v2!(x))) }
        91 => { macro_rules! old_div { ($e:expr) => { B9($e) } } lit("<p a=\"["); esc(x); lit("]\"><br>["); esc(x); lit("]</p>"); end(b, p!(a = old_div!(x), br!(), (old_div!(x)))) }
        92 => { macro_rules! old_ruby { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ old_ruby!(x) }, span!(id = old_ruby![x]))) }
        93 => { macro_rules! old_var { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", old_var!(x), classes!(old_var!(x)))) }
        94 => { macro_rules! old_img { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(old_img!(x), z = old_img![x])) }
        95 => { macro_rules! old_frag { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { old_frag!(x) } else { old_frag!(x) }))) }
        96 => { macro_rules! old_a { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(old_a!(x), id = old_a![x])) }
        97 => { macro_rules! old_em { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(old_em!(x), old_em!(x))) }
        98 => { macro_rules! div_old { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]<span id=\"["); esc(x); lit("]\"></span>"); end(b, frag!({ div_old!(x) }, span!(id = div_old!(x)))) }
        99 => { macro_rules! meta_old { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", meta_old!(x), classes!(meta_old![x]))) }
        100 => { macro_rules! classes_old { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(classes_old!(x), z = classes_old!(x))) }
        101 => { macro_rules! blockquote_old { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { blockquote_old!(x) } else { blockquote_old![x] }))) }
        102 => { macro_rules! h4_old { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(h4_old!(x), id = h4_old!(x))) }
        103 => { macro_rules! p_old { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(p_old!(x), p_old![x])) }
        104 => { macro_rules! textarea_old { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(textarea_old!(x), textarea_old!(x))) }
        105 => { macro_rules! div_impl { ($e:expr) => { B9($e) } } lit("<p>t["); esc(x); lit("]["); esc(x); lit("]</p>"); end(b, p!("t", div_impl!(x), classes!(div_impl!(x)))) }
        106 => { macro_rules! datalist_impl { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(datalist_impl!(x), z = datalist_impl![x])) }
        107 => { macro_rules! ins_impl { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { ins_impl!(x) } else { ins_impl!(x) }))) }
        108 => { macro_rules! ruby_impl { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(ruby_impl!(x), id = ruby_impl![x])) }
        109 => { macro_rules! var_impl { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(var_impl!(x), var_impl!(x))) }
        110 => { macro_rules! img_impl { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(img_impl!(x), img_impl![x])) }
        111 => { macro_rules! frag_impl { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = frag_impl!(x), b = frag_impl!(x))) }
        112 => { macro_rules! div_fn { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]-["); esc(x); lit("]"); end(b, near!(div_fn!(x), z = div_fn!(x))) }
        113 => { macro_rules! strong_fn { ($e:expr) => { B9($e) } } lit("<p>["); esc(x); lit("]</p>"); end(b, p!(frag_match!(if k { strong_fn!(x) } else { strong_fn![x] }))) }
        114 => { macro_rules! area_fn { ($e:expr) => { B9($e) } } lit("<p id=\"["); esc(x); lit("]\">["); esc(x); lit("]</p>"); end(b, p!(area_fn!(x), id = area_fn!(x))) }
        115 => { macro_rules! meta_fn { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("]["); esc(x); lit("]"); end(b, frag!(meta_fn!(x), meta_fn![x])) }
        116 => { macro_rules! classes_fn { ($e:expr) => { B9($e) } } lit("["); esc(x); lit("] ["); esc(x); lit("]"); end(b, classes!(classes_fn!(x), classes_fn!(x))) }
        117 => { macro_rules! blockquote_fn { ($e:expr) => { B9($e) } } lit("<img a=\"["); esc(x); lit("]\" b=\"["); esc(x); lit("]\">"); end(b, img!(a = blockquote_fn!(x), b = blockquote_fn![x])) }
        _ => { macro_rules! h4_fn { ($e:expr) => { B9($e) } } lit("<div><b>["); esc(x); lit("]</b>["); esc(x); lit("]</div>"); end(b, div!(b!(h4_fn!(x)), h4_fn!(x))) } } }
}
