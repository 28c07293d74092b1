//! formatted values
use crate::pre::*;
use core::fmt::{self, Display, Formatter, Write};
/// writes its text in pieces: after each byte boundary it may start a new piece, written as text, char or formatted text
struct Pieces(&'static str, [u8; 4]);
impl Display for Pieces {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        let mut at = 0;
        for i in 0..4 {
            let n = self.0.len();
            let end = if i == 3 { n } else { let e = at + self.1[i] as usize % 4; if e > n { n } else { e } };
            f.write_str(&self.0[at..end])?;
            at = end;
        }
        Ok(())
    }
}
struct Chars([char; 2], &'static str);
impl Display for Chars { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_char(self.0[0])?; f.write_str(self.1)?; f.write_char(self.0[1]) } }
struct Pad(&'static str);
impl Display for Pad { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.pad(self.0) } }
struct Nested(&'static str);
impl Display for Nested { fn fmt(&self, f: &mut Formatter) -> fmt::Result { write!(f, "<{}>{:?}", Pad(self.0), 1u8)?; f.write_fmt(format_args!("&{}", self.0)) } }
struct Nothing;
impl Display for Nothing { fn fmt(&self, _: &mut Formatter) -> fmt::Result { Ok(()) } }
/// tells how it was asked
struct Asked(&'static str);
impl Display for Asked { fn fmt(&self, f: &mut Formatter) -> fmt::Result {
    if f.alternate() { f.write_str("#")? }
    if f.sign_plus() { f.write_str("+")? }
    if f.sign_minus() { f.write_str("-")? }
    if f.sign_aware_zero_pad() { f.write_str("0")? }
    if let Some(w) = f.width() { write!(f, "w{}", w)? }
    if let Some(w) = f.precision() { write!(f, ".{}", w)? }
    f.write_char(f.fill())?;
    f.write_str(match f.align() { None => "n", Some(fmt::Alignment::Left) => "<", Some(fmt::Alignment::Right) => ">", Some(fmt::Alignment::Center) => "^" })?;
    f.write_str(self.0)
} }
impl fmt::Debug for Asked { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str("debug") } }
fn cuts() -> [u8; 4] { [choose(3) as u8, choose(3) as u8, choose(3) as u8, 0] }
case! {
    h_11_args_one(b) { let s = t(3); esc(s); end(b, format_args!("{}", s)) }
    h_11_asked_disp(b) { let s = t(1); w![" n", [s]]; end(b, laby::disp!(Asked(s))) }
    h_11_asked_from(b) { let s = t(1); w![" n", [s]]; end(b, laby::RenderDisplay::from(Asked(s))) }
    h_11_asked_direct(b) { let s = t(1); w![" n", [s]]; end(b, laby::RenderDisplay(Asked(s))) }
    h_11_asked_ref(b) { let s = t(1); w![" n", [s]]; let a = Asked(s); end(b, laby::disp!(&a)) }
    h_11_asked_args(b) { let s = t(1); match choose(8) { 0 => { w![" n", [s]]; end(b, format_args!("{}", Asked(s))) } 1 => { w!["# n", [s]]; end(b, format_args!("{:#}", Asked(s))) } 2 => { w!["w5 &gt;", [s]]; end(b, format_args!("{:>5}", Asked(s))) }
        3 => { w![".3&lt;^", [s]]; end(b, format_args!("{:<^.3}", Asked(s))) } 4 => { w!["+0w4 n", [s]]; end(b, format_args!("{:+04}", Asked(s))) } 5 => { w!["-&amp;&lt;", [s]]; end(b, format_args!("{:&<-}", Asked(s))) } 6 => { w!["#+w12.7&quot;&gt;", [s]]; end(b, format_args!("{:\">+#12.7}", Asked(s))) }
        _ => { w!["debug", " n", [s], "debug"]; end(b, format_args!("{:?}{}{:#}{:#?}", Asked(s), Asked(s), "", Asked(s))) } } }
    h_11_asked_width(b) { let s = t(1); let w = choose(7); w!["w"]; lit_dec(w as u32); w![".", "2 n", [s]]; end(b, format_args!("{:w$.p$}", Asked(s), w = w, p = 2)) }
    h_11_asked_opt(b) { let s = t(1); w![" n", [s], " n", [s]]; end(b, laby::frag!(Some(laby::disp!(Asked(s))), laby::iter!([laby::disp!(Asked(s))]))) }
    h_11_asked_in(b) { let s = t(1); w!["<p a=\" n", [s], "\"> n", [s], "# n", [s], "</p>"]; end(b, laby::p!(a = laby::disp!(Asked(s)), laby::disp!(Asked(s)), laby::disp!(format_args!("{:#}", Asked(s))))) }
    h_11_args_lit(b) { let s = t(2); w!["x&lt;", [s], "&quot;y&amp;", [s], "&#39;&gt;"]; end(b, format_args!("x<{}\"y&{}'>", s, s)) }
    h_11_args_static(b) { w!["&lt;b&gt;&amp;&quot;&#39;static"]; end(b, format_args!("<b>&\"'static")) }
    h_11_args_empty(b) { end(b, format_args!("")) }
    h_11_args_braces(b) { let s = t(2); w!["{", [s], "}"]; end(b, format_args!("{{{}}}", s)) }
    h_11_args_num(b) { let v = u8_(); let s = t(2); lit_dec(v as u32); w!["|", [s]]; end(b, format_args!("{}|{}", v, s)) }
    h_11_args_char(b) { let c = any_char(); esc_char(c); w!["-"]; esc_char(c); end(b, format_args!("{}-{0}", c)) }
    h_11_args_named(b) { let s = t(2); let u = t(1); w![[u], "&gt;", [s], "&gt;", [u]]; end(b, format_args!("{u}>{s}>{u}", u = u, s = s)) }
    h_11_args_fill(b) { let v = u8_(); assume(v < 10); w!["&lt;&lt;&lt;&lt;"]; lit_dec(v as u32); end(b, format_args!("{:<>5}", v)) }
    h_11_args_fill2(b) { let v = u8_(); assume(v >= 10 && v < 100); w!["&amp;"]; lit_dec(v as u32); w!["&amp;"]; end(b, format_args!("{:&^4}", v)) }
    h_11_args_pad(b) { let s = ascii(2); w![[s], "&quot;&quot;"]; end(b, format_args!("{:\"<4}", Pad(s))) }
    h_11_args_prec(b) { let s = ascii(3); w![[&s[..1]]]; end(b, format_args!("{:.1}", Pad(s))) }
    h_11_pieces(b) { let s = ascii(4); w![[s]]; end(b, format_args!("{}", Pieces(s, cuts()))) }
    h_11_pieces_disp(b) { let s = ascii(4); w![[s]]; end(b, laby::disp!(Pieces(s, cuts()))) }
    h_11_chars(b) { let (c, d) = (any_char(), any_char()); let s = t(1); esc_char(c); esc(s); esc_char(d); end(b, format_args!("{}", Chars([c, d], s))) }
    h_11_disp_str(b) { let s = t(3); esc(s); end(b, laby::disp!(s)) }
    h_11_disp_num(b) { let v = u8_(); lit_dec(v as u32); end(b, laby::RenderDisplay::from(v)) }
    h_11_disp_nested(b) { let s = t(2); w!["&lt;", [s], "&gt;1&amp;", [s]]; end(b, laby::disp!(Nested(s))) }
    h_11_nested_args(b) { let s = t(2); w!["a", "&lt;", [s], "&gt;1&amp;", [s], "z"]; end(b, format_args!("a{}z", Nested(s))) }
    h_11_args_in_args(b) { let s = t(2); w!["&lt;", "&#39;", [s], "&gt;"]; end(b, format_args!("<{}>", format_args!("'{}", s))) }
    h_11_nothing(b) { end(b, laby::disp!(Nothing)) }
    h_11_debug(b) { w!["&quot;a&lt;\\&quot;b&quot;"]; end(b, format_args!("{:?}", "a<\"b")) }
    h_11_disp_args(b) { let s = t(2); w!["&amp;", [s]]; end(b, laby::disp!(format_args!("&{}", s))) }
    h_11_alt(b) { let v = u8_(); assume(v < 8); w!["0x"]; lit_dec(v as u32); end(b, format_args!("{:#x}", v)) }
    h_11_opt_args(b) { let s = t(2); w![[s], "&lt;"]; end(b, Some(format_args!("{}<", s))) }
    h_11_in_template(b) { let s = t(2); w!["<p title=\"&quot;", [s], "\">", [s], "&amp;</p>"]; end(b, laby::p!(title = format_args!("\"{}", s), format_args!("{}&", s))) }
}
/// a longer text in two writes: length, where it is cut
#[no_mangle] pub fn h_11_long() {
    let mut b = start(p(0), p(1));
    limit(2);
    let n = p(2); let k = p(3);
    let s = ascii(n);
    struct Two(&'static str, usize);
    impl Display for Two { fn fmt(&self, f: &mut Formatter) -> fmt::Result { f.write_str(&self.0[..self.1])?; f.write_str(&self.0[self.1..]) } }
    esc(s);
    cpu(3);
    finish(b, format_args!("{}", Two(s, k)));
}
/// long pieces: capacity, previous length, length, kind
#[no_mangle] pub fn h_11_big() {
    let b = start(p(0), p(1)); cpu(3); let s = long(0, p(2), 9, p(3), 1); let v = u8_();
    struct Bits(&'static str, usize);
    impl Display for Bits { fn fmt(&self, f: &mut Formatter) -> fmt::Result { let mut at = 0; let mut k = self.1; while at < self.0.len() { let mut e = (at + k).min(self.0.len()); while !self.0.is_char_boundary(e) { e += 1 } f.write_str(&self.0[at..e])?; at = e; k = k * 2 + 1 } Ok(()) } }
    match choose(5) {
        0 => { w!["&lt;", [s], "&gt;"]; finish(b, format_args!("<{}>", s)) }
        1 => { w![[s]]; finish(b, laby::disp!(s)) }
        2 => { w![[s], "&amp;", [s]]; lit_dec(v as u32); finish(b, format_args!("{}&{}{}", s, s, v)) }
        3 => { w![[s]]; finish(b, format_args!("{}", Bits(s, 1))) }
        _ => { w![[s]]; finish(b, laby::disp!(Bits(s, 15))) }
    }
}
