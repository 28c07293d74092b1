//! wide and deep templates (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
static POOL: [&str; 300] = ["p0", "p1", "p2", "p3<", "p4", "p5", "p6", "p7", "p8", "p9", "p10", "p11", "p12", "p13", "p14", "p15", "p16", "p17", "p18", "p19", "p20<", "p21", "p22", "p23", "p24", "p25", "p26", "p27", "p28", "p29", "p30", "p31", "p32", "p33", "p34", "p35", "p36", "p37<", "p38", "p39", "p40", "p41", "p42", "p43", "p44", "p45", "p46", "p47", "p48", "p49", "p50", "p51", "p52", "p53", "p54<", "p55", "p56", "p57", "p58", "p59", "p60", "p61", "p62", "p63", "p64", "p65", "p66", "p67", "p68", "p69", "p70", "p71<", "p72", "p73", "p74", "p75", "p76", "p77", "p78", "p79", "p80", "p81", "p82", "p83", "p84", "p85", "p86", "p87", "p88<", "p89", "p90", "p91", "p92", "p93", "p94", "p95", "p96", "p97", "p98", "p99", "p100", "p101", "p102", "p103", "p104", "p105<", "p106", "p107", "p108", "p109", "p110", "p111", "p112", "p113", "p114", "p115", "p116", "p117", "p118", "p119", "p120", "p121", "p122<", "p123", "p124", "p125", "p126", "p127", "p128", "p129", "p130", "p131", "p132", "p133", "p134", "p135", "p136", "p137", "p138", "p139<", "p140", "p141", "p142", "p143", "p144", "p145", "p146", "p147", "p148", "p149", "p150", "p151", "p152", "p153", "p154", "p155", "p156<", "p157", "p158", "p159", "p160", "p161", "p162", "p163", "p164", "p165", "p166", "p167", "p168", "p169", "p170", "p171", "p172", "p173<", "p174", "p175", "p176", "p177", "p178", "p179", "p180", "p181", "p182", "p183", "p184", "p185", "p186", "p187", "p188", "p189", "p190<", "p191", "p192", "p193", "p194", "p195", "p196", "p197", "p198", "p199", "p200", "p201", "p202", "p203", "p204", "p205", "p206", "p207<", "p208", "p209", "p210", "p211", "p212", "p213", "p214", "p215", "p216", "p217", "p218", "p219", "p220", "p221", "p222", "p223", "p224<", "p225", "p226", "p227", "p228", "p229", "p230", "p231", "p232", "p233", "p234", "p235", "p236", "p237", "p238", "p239", "p240", "p241<", "p242", "p243", "p244", "p245", "p246", "p247", "p248", "p249", "p250", "p251", "p252", "p253", "p254", "p255", "p256", "p257", "p258<", "p259", "p260", "p261", "p262", "p263", "p264", "p265", "p266", "p267", "p268", "p269", "p270", "p271", "p272", "p273", "p274", "p275<", "p276", "p277", "p278", "p279", "p280", "p281", "p282", "p283", "p284", "p285", "p286", "p287", "p288", "p289", "p290", "p291", "p292<", "p293", "p294", "p295", "p296", "p297", "p298", "p299"];
#[inline(never)] fn s(i: usize) -> &'static str { POOL[i] }
fn idf<T>(v: T) -> T { v }
use core::cell::Cell;
pub struct G { l: [Cell<u8>; 160], n: Cell<usize>, c: Cell<u8> }
impl G {
    fn new() -> G { G { l: [const { Cell::new(0) }; 160], n: Cell::new(0), c: Cell::new(0) } }
    fn up(&self) -> u8 { self.c.set(self.c.get() + 1); self.c.get() }
    fn nx(&self) -> V<'_> { self.e(self.up()) }
    fn tk(&self) -> bool { let k = self.up(); self.log(k); k & 1 == 1 }
    fn log(&self, k: u8) { self.l[self.n.get()].set(k); self.n.set(self.n.get() + 1); }
    fn e(&self, k: u8) -> V<'_> { self.log(k); V(self, k) }
    fn s<T>(&self, k: u8, v: T) -> T { self.log(k); v }
    fn same(&self, o: &G, code: u32) { check(self.n.get() == o.n.get(), code); for i in 0..o.n.get().min(self.n.get()) { check(self.l[i].get() == o.l[i].get(), code + 1) } }
}
pub struct V<'a>(&'a G, u8);
impl<'a> Render for V<'a> { fn render(self, b: &mut Buffer) { self.0.log(128 + self.1); b.push((b'A' + self.1 % 26) as char) } }
fn ev<'a>(g: &'a G, k: u8) -> V<'a> { g.e(k) }
fn nx<'a>(g: &'a G) -> V<'a> { g.nx() }
macro_rules! gn { ($g:ident) => { $g.nx() } }
macro_rules! ge { ($g:ident, $k:expr) => { $g.e($k) } }
#[laby] fn oc<'a>(a: impl Render + 'a, b: impl Render + 'a, #[rest] r: impl Render + 'a) -> impl Render + 'a { p!(b, r, id = a) }
macro_rules! go { ($b:ident, $g:ident, $n:expr, $ev:ident, $rd:ident) => {{
    let mut b = $b; let l = b.len(); let n = $n;
    $g.same(&$ev, 20); check(b.len() == l, 24);
    $g.n.set(0); out(&b);
    n.render(&mut b);
    $g.same(&$rd, 22); check_str(b.as_str(), 1);
}} }
case! {
    h_23_w009_ch(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); lit("<div>BCDEFGHIJ</div>"); go!(b, g, div!(g.e(1), g.e(2), g.e(3), g.e(4), g.e(5), g.e(6), g.e(7), g.e(8), g.e(9)), el, rl) }
    h_23_w009_at(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); lit("<div a1=\"B\" a2=\"C\" a3=\"D\" a4=\"E\" a5=\"F\" a6=\"G\" a7=\"H\" a8=\"I\" a9=\"J\"></div>"); go!(b, g, div!(a1 = g.e(1), a2 = g.e(2), a3 = g.e(3), a4 = g.e(4), a5 = g.e(5), a6 = g.e(6), a7 = g.e(7), a8 = g.e(8), a9 = g.e(9)), el, rl) }
    h_23_w009_mx(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); lit("<p a1=\"B\" a2=\"C\" a3=\"D\" a4=\"E\">F.G.H.I.J.</p>"); go!(b, g, p!(g.e(5), ".", g.e(6), ".", g.e(7), ".", g.e(8), ".", g.e(9), ".", a1 = g.e(1), a2 = g.e(2), a3 = g.e(3), a4 = g.e(4)), el, rl) }
    h_23_w009_cl(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); lit("B C D E F G H I J"); go!(b, g, classes!(g.e(1), g.e(2), g.e(3), g.e(4), g.e(5), g.e(6), g.e(7), g.e(8), g.e(9)), el, rl) }
    h_23_w009_ne(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); lit("<b>B<b>C<b>D<b>E<b>F<b>G<b>H<b>I<b>J</b></b></b></b></b></b></b></b></b>"); go!(b, g, b!(g.e(1), b!(g.e(2), b!(g.e(3), b!(g.e(4), b!(g.e(5), b!(g.e(6), b!(g.e(7), b!(g.e(8), b!(g.e(9)))))))))), el, rl) }
    h_23_w013_ch(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); lit("<div>BCDEFGHIJKLMN</div>"); go!(b, g, div!(g.e(1), g.e(2), g.e(3), g.e(4), g.e(5), g.e(6), g.e(7), g.e(8), g.e(9), g.e(10), g.e(11), g.e(12), g.e(13)), el, rl) }
    h_23_w013_at(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); lit("<div a1=\"B\" a2=\"C\" a3=\"D\" a4=\"E\" a5=\"F\" a6=\"G\" a7=\"H\" a8=\"I\" a9=\"J\" a10=\"K\" a11=\"L\" a12=\"M\" a13=\"N\"></div>"); go!(b, g, div!(a1 = g.e(1), a2 = g.e(2), a3 = g.e(3), a4 = g.e(4), a5 = g.e(5), a6 = g.e(6), a7 = g.e(7), a8 = g.e(8), a9 = g.e(9), a10 = g.e(10), a11 = g.e(11), a12 = g.e(12), a13 = g.e(13)), el, rl) }
    h_23_w013_mx(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); lit("<p a1=\"B\" a2=\"C\" a3=\"D\" a4=\"E\" a5=\"F\" a6=\"G\">H.I.J.K.L.M.N.</p>"); go!(b, g, p!(g.e(7), ".", g.e(8), ".", g.e(9), ".", g.e(10), ".", g.e(11), ".", g.e(12), ".", g.e(13), ".", a1 = g.e(1), a2 = g.e(2), a3 = g.e(3), a4 = g.e(4), a5 = g.e(5), a6 = g.e(6)), el, rl) }
    h_23_w013_cl(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); lit("B C D E F G H I J K L M N"); go!(b, g, classes!(g.e(1), g.e(2), g.e(3), g.e(4), g.e(5), g.e(6), g.e(7), g.e(8), g.e(9), g.e(10), g.e(11), g.e(12), g.e(13)), el, rl) }
    h_23_w013_ne(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); lit("<b>B<b>C<b>D<b>E<b>F<b>G<b>H<b>I<b>J<b>K<b>L<b>M<b>N</b></b></b></b></b></b></b></b></b></b></b></b></b>"); go!(b, g, b!(g.e(1), b!(g.e(2), b!(g.e(3), b!(g.e(4), b!(g.e(5), b!(g.e(6), b!(g.e(7), b!(g.e(8), b!(g.e(9), b!(g.e(10), b!(g.e(11), b!(g.e(12), b!(g.e(13)))))))))))))), el, rl) }
    h_23_w017_ch(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); lit("<div>BCDEFGHIJKLMNOPQR</div>"); go!(b, g, div!(g.e(1), g.e(2), g.e(3), g.e(4), g.e(5), g.e(6), g.e(7), g.e(8), g.e(9), g.e(10), g.e(11), g.e(12), g.e(13), g.e(14), g.e(15), g.e(16), g.e(17)), el, rl) }
    h_23_w017_at(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); lit("<div a1=\"B\" a2=\"C\" a3=\"D\" a4=\"E\" a5=\"F\" a6=\"G\" a7=\"H\" a8=\"I\" a9=\"J\" a10=\"K\" a11=\"L\" a12=\"M\" a13=\"N\" a14=\"O\" a15=\"P\" a16=\"Q\" a17=\"R\"></div>"); go!(b, g, div!(a1 = g.e(1), a2 = g.e(2), a3 = g.e(3), a4 = g.e(4), a5 = g.e(5), a6 = g.e(6), a7 = g.e(7), a8 = g.e(8), a9 = g.e(9), a10 = g.e(10), a11 = g.e(11), a12 = g.e(12), a13 = g.e(13), a14 = g.e(14), a15 = g.e(15), a16 = g.e(16), a17 = g.e(17)), el, rl) }
    h_23_w017_mx(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); lit("<p a1=\"B\" a2=\"C\" a3=\"D\" a4=\"E\" a5=\"F\" a6=\"G\" a7=\"H\" a8=\"I\">J.K.L.M.N.O.P.Q.R.</p>"); go!(b, g, p!(g.e(9), ".", g.e(10), ".", g.e(11), ".", g.e(12), ".", g.e(13), ".", g.e(14), ".", g.e(15), ".", g.e(16), ".", g.e(17), ".", a1 = g.e(1), a2 = g.e(2), a3 = g.e(3), a4 = g.e(4), a5 = g.e(5), a6 = g.e(6), a7 = g.e(7), a8 = g.e(8)), el, rl) }
    h_23_w017_cl(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); lit("B C D E F G H I J K L M N O P Q R"); go!(b, g, classes!(g.e(1), g.e(2), g.e(3), g.e(4), g.e(5), g.e(6), g.e(7), g.e(8), g.e(9), g.e(10), g.e(11), g.e(12), g.e(13), g.e(14), g.e(15), g.e(16), g.e(17)), el, rl) }
    h_23_w017_ne(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); lit("<b>B<b>C<b>D<b>E<b>F<b>G<b>H<b>I<b>J<b>K<b>L<b>M<b>N<b>O<b>P<b>Q<b>R</b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b>"); go!(b, g, b!(g.e(1), b!(g.e(2), b!(g.e(3), b!(g.e(4), b!(g.e(5), b!(g.e(6), b!(g.e(7), b!(g.e(8), b!(g.e(9), b!(g.e(10), b!(g.e(11), b!(g.e(12), b!(g.e(13), b!(g.e(14), b!(g.e(15), b!(g.e(16), b!(g.e(17)))))))))))))))))), el, rl) }
    h_23_w027_ch(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); lit("<div>BCDEFGHIJKLMNOPQRSTUVWXYZAB</div>"); go!(b, g, div!(g.e(1), g.e(2), g.e(3), g.e(4), g.e(5), g.e(6), g.e(7), g.e(8), g.e(9), g.e(10), g.e(11), g.e(12), g.e(13), g.e(14), g.e(15), g.e(16), g.e(17), g.e(18), g.e(19), g.e(20), g.e(21), g.e(22), g.e(23), g.e(24), g.e(25), g.e(26), g.e(27)), el, rl) }
    h_23_w027_at(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); lit("<div a1=\"B\" a2=\"C\" a3=\"D\" a4=\"E\" a5=\"F\" a6=\"G\" a7=\"H\" a8=\"I\" a9=\"J\" a10=\"K\" a11=\"L\" a12=\"M\" a13=\"N\" a14=\"O\" a15=\"P\" a16=\"Q\" a17=\"R\" a18=\"S\" a19=\"T\" a20=\"U\" a21=\"V\" a22=\"W\" a23=\"X\" a24=\"Y\" a25=\"Z\" a26=\"A\" a27=\"B\"></div>"); go!(b, g, div!(a1 = g.e(1), a2 = g.e(2), a3 = g.e(3), a4 = g.e(4), a5 = g.e(5), a6 = g.e(6), a7 = g.e(7), a8 = g.e(8), a9 = g.e(9), a10 = g.e(10), a11 = g.e(11), a12 = g.e(12), a13 = g.e(13), a14 = g.e(14), a15 = g.e(15), a16 = g.e(16), a17 = g.e(17), a18 = g.e(18), a19 = g.e(19), a20 = g.e(20), a21 = g.e(21), a22 = g.e(22), a23 = g.e(23), a24 = g.e(24), a25 = g.e(25), a26 = g.e(26), a27 = g.e(27)), el, rl) }
    h_23_w027_mx(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); lit("<p a1=\"B\" a2=\"C\" a3=\"D\" a4=\"E\" a5=\"F\" a6=\"G\" a7=\"H\" a8=\"I\" a9=\"J\" a10=\"K\" a11=\"L\" a12=\"M\" a13=\"N\">O.P.Q.R.S.T.U.V.W.X.Y.Z.A.B.</p>"); go!(b, g, p!(g.e(14), ".", g.e(15), ".", g.e(16), ".", g.e(17), ".", g.e(18), ".", g.e(19), ".", g.e(20), ".", g.e(21), ".", g.e(22), ".", g.e(23), ".", g.e(24), ".", g.e(25), ".", g.e(26), ".", g.e(27), ".", a1 = g.e(1), a2 = g.e(2), a3 = g.e(3), a4 = g.e(4), a5 = g.e(5), a6 = g.e(6), a7 = g.e(7), a8 = g.e(8), a9 = g.e(9), a10 = g.e(10), a11 = g.e(11), a12 = g.e(12), a13 = g.e(13)), el, rl) }
    h_23_w027_cl(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); lit("B C D E F G H I J K L M N O P Q R S T U V W X Y Z A B"); go!(b, g, classes!(g.e(1), g.e(2), g.e(3), g.e(4), g.e(5), g.e(6), g.e(7), g.e(8), g.e(9), g.e(10), g.e(11), g.e(12), g.e(13), g.e(14), g.e(15), g.e(16), g.e(17), g.e(18), g.e(19), g.e(20), g.e(21), g.e(22), g.e(23), g.e(24), g.e(25), g.e(26), g.e(27)), el, rl) }
    h_23_w027_ne(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); lit("<b>B<b>C<b>D<b>E<b>F<b>G<b>H<b>I<b>J<b>K<b>L<b>M<b>N<b>O<b>P<b>Q<b>R<b>S<b>T<b>U<b>V<b>W<b>X<b>Y<b>Z<b>A<b>B</b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b>"); go!(b, g, b!(g.e(1), b!(g.e(2), b!(g.e(3), b!(g.e(4), b!(g.e(5), b!(g.e(6), b!(g.e(7), b!(g.e(8), b!(g.e(9), b!(g.e(10), b!(g.e(11), b!(g.e(12), b!(g.e(13), b!(g.e(14), b!(g.e(15), b!(g.e(16), b!(g.e(17), b!(g.e(18), b!(g.e(19), b!(g.e(20), b!(g.e(21), b!(g.e(22), b!(g.e(23), b!(g.e(24), b!(g.e(25), b!(g.e(26), b!(g.e(27)))))))))))))))))))))))))))), el, rl) }
    h_23_w033_ch(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); lit("<div>BCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGH</div>"); go!(b, g, div!(g.e(1), g.e(2), g.e(3), g.e(4), g.e(5), g.e(6), g.e(7), g.e(8), g.e(9), g.e(10), g.e(11), g.e(12), g.e(13), g.e(14), g.e(15), g.e(16), g.e(17), g.e(18), g.e(19), g.e(20), g.e(21), g.e(22), g.e(23), g.e(24), g.e(25), g.e(26), g.e(27), g.e(28), g.e(29), g.e(30), g.e(31), g.e(32), g.e(33)), el, rl) }
    h_23_w033_at(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); lit("<div a1=\"B\" a2=\"C\" a3=\"D\" a4=\"E\" a5=\"F\" a6=\"G\" a7=\"H\" a8=\"I\" a9=\"J\" a10=\"K\" a11=\"L\" a12=\"M\" a13=\"N\" a14=\"O\" a15=\"P\" a16=\"Q\" a17=\"R\" a18=\"S\" a19=\"T\" a20=\"U\" a21=\"V\" a22=\"W\" a23=\"X\" a24=\"Y\" a25=\"Z\" a26=\"A\" a27=\"B\" a28=\"C\" a29=\"D\" a30=\"E\" a31=\"F\" a32=\"G\" a33=\"H\"></div>"); go!(b, g, div!(a1 = g.e(1), a2 = g.e(2), a3 = g.e(3), a4 = g.e(4), a5 = g.e(5), a6 = g.e(6), a7 = g.e(7), a8 = g.e(8), a9 = g.e(9), a10 = g.e(10), a11 = g.e(11), a12 = g.e(12), a13 = g.e(13), a14 = g.e(14), a15 = g.e(15), a16 = g.e(16), a17 = g.e(17), a18 = g.e(18), a19 = g.e(19), a20 = g.e(20), a21 = g.e(21), a22 = g.e(22), a23 = g.e(23), a24 = g.e(24), a25 = g.e(25), a26 = g.e(26), a27 = g.e(27), a28 = g.e(28), a29 = g.e(29), a30 = g.e(30), a31 = g.e(31), a32 = g.e(32), a33 = g.e(33)), el, rl) }
    h_23_w033_mx(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); lit("<p a1=\"B\" a2=\"C\" a3=\"D\" a4=\"E\" a5=\"F\" a6=\"G\" a7=\"H\" a8=\"I\" a9=\"J\" a10=\"K\" a11=\"L\" a12=\"M\" a13=\"N\" a14=\"O\" a15=\"P\" a16=\"Q\">R.S.T.U.V.W.X.Y.Z.A.B.C.D.E.F.G.H.</p>"); go!(b, g, p!(g.e(17), ".", g.e(18), ".", g.e(19), ".", g.e(20), ".", g.e(21), ".", g.e(22), ".", g.e(23), ".", g.e(24), ".", g.e(25), ".", g.e(26), ".", g.e(27), ".", g.e(28), ".", g.e(29), ".", g.e(30), ".", g.e(31), ".", g.e(32), ".", g.e(33), ".", a1 = g.e(1), a2 = g.e(2), a3 = g.e(3), a4 = g.e(4), a5 = g.e(5), a6 = g.e(6), a7 = g.e(7), a8 = g.e(8), a9 = g.e(9), a10 = g.e(10), a11 = g.e(11), a12 = g.e(12), a13 = g.e(13), a14 = g.e(14), a15 = g.e(15), a16 = g.e(16)), el, rl) }
    h_23_w033_cl(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); lit("B C D E F G H I J K L M N O P Q R S T U V W X Y Z A B C D E F G H"); go!(b, g, classes!(g.e(1), g.e(2), g.e(3), g.e(4), g.e(5), g.e(6), g.e(7), g.e(8), g.e(9), g.e(10), g.e(11), g.e(12), g.e(13), g.e(14), g.e(15), g.e(16), g.e(17), g.e(18), g.e(19), g.e(20), g.e(21), g.e(22), g.e(23), g.e(24), g.e(25), g.e(26), g.e(27), g.e(28), g.e(29), g.e(30), g.e(31), g.e(32), g.e(33)), el, rl) }
    h_23_w033_ne(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); lit("<b>B<b>C<b>D<b>E<b>F<b>G<b>H<b>I<b>J<b>K<b>L<b>M<b>N<b>O<b>P<b>Q<b>R<b>S<b>T<b>U<b>V<b>W<b>X<b>Y<b>Z<b>A<b>B<b>C<b>D<b>E<b>F<b>G<b>H</b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b>"); go!(b, g, b!(g.e(1), b!(g.e(2), b!(g.e(3), b!(g.e(4), b!(g.e(5), b!(g.e(6), b!(g.e(7), b!(g.e(8), b!(g.e(9), b!(g.e(10), b!(g.e(11), b!(g.e(12), b!(g.e(13), b!(g.e(14), b!(g.e(15), b!(g.e(16), b!(g.e(17), b!(g.e(18), b!(g.e(19), b!(g.e(20), b!(g.e(21), b!(g.e(22), b!(g.e(23), b!(g.e(24), b!(g.e(25), b!(g.e(26), b!(g.e(27), b!(g.e(28), b!(g.e(29), b!(g.e(30), b!(g.e(31), b!(g.e(32), b!(g.e(33)))))))))))))))))))))))))))))))))), el, rl) }
    h_23_w040_ch(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); el.log(34); rl.log(162); el.log(35); rl.log(163); el.log(36); rl.log(164); el.log(37); rl.log(165); el.log(38); rl.log(166); el.log(39); rl.log(167); el.log(40); rl.log(168); lit("<div>BCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNO</div>"); go!(b, g, div!(g.e(1), g.e(2), g.e(3), g.e(4), g.e(5), g.e(6), g.e(7), g.e(8), g.e(9), g.e(10), g.e(11), g.e(12), g.e(13), g.e(14), g.e(15), g.e(16), g.e(17), g.e(18), g.e(19), g.e(20), g.e(21), g.e(22), g.e(23), g.e(24), g.e(25), g.e(26), g.e(27), g.e(28), g.e(29), g.e(30), g.e(31), g.e(32), g.e(33), g.e(34), g.e(35), g.e(36), g.e(37), g.e(38), g.e(39), g.e(40)), el, rl) }
    h_23_w040_at(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); el.log(34); rl.log(162); el.log(35); rl.log(163); el.log(36); rl.log(164); el.log(37); rl.log(165); el.log(38); rl.log(166); el.log(39); rl.log(167); el.log(40); rl.log(168); lit("<div a1=\"B\" a2=\"C\" a3=\"D\" a4=\"E\" a5=\"F\" a6=\"G\" a7=\"H\" a8=\"I\" a9=\"J\" a10=\"K\" a11=\"L\" a12=\"M\" a13=\"N\" a14=\"O\" a15=\"P\" a16=\"Q\" a17=\"R\" a18=\"S\" a19=\"T\" a20=\"U\" a21=\"V\" a22=\"W\" a23=\"X\" a24=\"Y\" a25=\"Z\" a26=\"A\" a27=\"B\" a28=\"C\" a29=\"D\" a30=\"E\" a31=\"F\" a32=\"G\" a33=\"H\" a34=\"I\" a35=\"J\" a36=\"K\" a37=\"L\" a38=\"M\" a39=\"N\" a40=\"O\"></div>"); go!(b, g, div!(a1 = g.e(1), a2 = g.e(2), a3 = g.e(3), a4 = g.e(4), a5 = g.e(5), a6 = g.e(6), a7 = g.e(7), a8 = g.e(8), a9 = g.e(9), a10 = g.e(10), a11 = g.e(11), a12 = g.e(12), a13 = g.e(13), a14 = g.e(14), a15 = g.e(15), a16 = g.e(16), a17 = g.e(17), a18 = g.e(18), a19 = g.e(19), a20 = g.e(20), a21 = g.e(21), a22 = g.e(22), a23 = g.e(23), a24 = g.e(24), a25 = g.e(25), a26 = g.e(26), a27 = g.e(27), a28 = g.e(28), a29 = g.e(29), a30 = g.e(30), a31 = g.e(31), a32 = g.e(32), a33 = g.e(33), a34 = g.e(34), a35 = g.e(35), a36 = g.e(36), a37 = g.e(37), a38 = g.e(38), a39 = g.e(39), a40 = g.e(40)), el, rl) }
    h_23_w040_mx(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); el.log(34); rl.log(162); el.log(35); rl.log(163); el.log(36); rl.log(164); el.log(37); rl.log(165); el.log(38); rl.log(166); el.log(39); rl.log(167); el.log(40); rl.log(168); lit("<p a1=\"B\" a2=\"C\" a3=\"D\" a4=\"E\" a5=\"F\" a6=\"G\" a7=\"H\" a8=\"I\" a9=\"J\" a10=\"K\" a11=\"L\" a12=\"M\" a13=\"N\" a14=\"O\" a15=\"P\" a16=\"Q\" a17=\"R\" a18=\"S\" a19=\"T\" a20=\"U\">V.W.X.Y.Z.A.B.C.D.E.F.G.H.I.J.K.L.M.N.O.</p>"); go!(b, g, p!(g.e(21), ".", g.e(22), ".", g.e(23), ".", g.e(24), ".", g.e(25), ".", g.e(26), ".", g.e(27), ".", g.e(28), ".", g.e(29), ".", g.e(30), ".", g.e(31), ".", g.e(32), ".", g.e(33), ".", g.e(34), ".", g.e(35), ".", g.e(36), ".", g.e(37), ".", g.e(38), ".", g.e(39), ".", g.e(40), ".", a1 = g.e(1), a2 = g.e(2), a3 = g.e(3), a4 = g.e(4), a5 = g.e(5), a6 = g.e(6), a7 = g.e(7), a8 = g.e(8), a9 = g.e(9), a10 = g.e(10), a11 = g.e(11), a12 = g.e(12), a13 = g.e(13), a14 = g.e(14), a15 = g.e(15), a16 = g.e(16), a17 = g.e(17), a18 = g.e(18), a19 = g.e(19), a20 = g.e(20)), el, rl) }
    h_23_w040_cl(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); el.log(34); rl.log(162); el.log(35); rl.log(163); el.log(36); rl.log(164); el.log(37); rl.log(165); el.log(38); rl.log(166); el.log(39); rl.log(167); el.log(40); rl.log(168); lit("B C D E F G H I J K L M N O P Q R S T U V W X Y Z A B C D E F G H I J K L M N O"); go!(b, g, classes!(g.e(1), g.e(2), g.e(3), g.e(4), g.e(5), g.e(6), g.e(7), g.e(8), g.e(9), g.e(10), g.e(11), g.e(12), g.e(13), g.e(14), g.e(15), g.e(16), g.e(17), g.e(18), g.e(19), g.e(20), g.e(21), g.e(22), g.e(23), g.e(24), g.e(25), g.e(26), g.e(27), g.e(28), g.e(29), g.e(30), g.e(31), g.e(32), g.e(33), g.e(34), g.e(35), g.e(36), g.e(37), g.e(38), g.e(39), g.e(40)), el, rl) }
    h_23_w040_ne(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); el.log(34); rl.log(162); el.log(35); rl.log(163); el.log(36); rl.log(164); el.log(37); rl.log(165); el.log(38); rl.log(166); el.log(39); rl.log(167); el.log(40); rl.log(168); lit("<b>B<b>C<b>D<b>E<b>F<b>G<b>H<b>I<b>J<b>K<b>L<b>M<b>N<b>O<b>P<b>Q<b>R<b>S<b>T<b>U<b>V<b>W<b>X<b>Y<b>Z<b>A<b>B<b>C<b>D<b>E<b>F<b>G<b>H<b>I<b>J<b>K<b>L<b>M<b>N<b>O</b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b>"); go!(b, g, b!(g.e(1), b!(g.e(2), b!(g.e(3), b!(g.e(4), b!(g.e(5), b!(g.e(6), b!(g.e(7), b!(g.e(8), b!(g.e(9), b!(g.e(10), b!(g.e(11), b!(g.e(12), b!(g.e(13), b!(g.e(14), b!(g.e(15), b!(g.e(16), b!(g.e(17), b!(g.e(18), b!(g.e(19), b!(g.e(20), b!(g.e(21), b!(g.e(22), b!(g.e(23), b!(g.e(24), b!(g.e(25), b!(g.e(26), b!(g.e(27), b!(g.e(28), b!(g.e(29), b!(g.e(30), b!(g.e(31), b!(g.e(32), b!(g.e(33), b!(g.e(34), b!(g.e(35), b!(g.e(36), b!(g.e(37), b!(g.e(38), b!(g.e(39), b!(g.e(40))))))))))))))))))))))))))))))))))))))))), el, rl) }
    h_23_w065_ch(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); el.log(34); rl.log(162); el.log(35); rl.log(163); el.log(36); rl.log(164); el.log(37); rl.log(165); el.log(38); rl.log(166); el.log(39); rl.log(167); el.log(40); rl.log(168); el.log(41); rl.log(169); el.log(42); rl.log(170); el.log(43); rl.log(171); el.log(44); rl.log(172); el.log(45); rl.log(173); el.log(46); rl.log(174); el.log(47); rl.log(175); el.log(48); rl.log(176); el.log(49); rl.log(177); el.log(50); rl.log(178); el.log(51); rl.log(179); el.log(52); rl.log(180); el.log(53); rl.log(181); el.log(54); rl.log(182); el.log(55); rl.log(183); el.log(56); rl.log(184); el.log(57); rl.log(185); el.log(58); rl.log(186); el.log(59); rl.log(187); el.log(60); rl.log(188); el.log(61); rl.log(189); el.log(62); rl.log(190); el.log(63); rl.log(191); el.log(64); rl.log(192); el.log(65); rl.log(193); lit("<div>BCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMN</div>"); go!(b, g, div!(g.e(1), g.e(2), g.e(3), g.e(4), g.e(5), g.e(6), g.e(7), g.e(8), g.e(9), g.e(10), g.e(11), g.e(12), g.e(13), g.e(14), g.e(15), g.e(16), g.e(17), g.e(18), g.e(19), g.e(20), g.e(21), g.e(22), g.e(23), g.e(24), g.e(25), g.e(26), g.e(27), g.e(28), g.e(29), g.e(30), g.e(31), g.e(32), g.e(33), g.e(34), g.e(35), g.e(36), g.e(37), g.e(38), g.e(39), g.e(40), g.e(41), g.e(42), g.e(43), g.e(44), g.e(45), g.e(46), g.e(47), g.e(48), g.e(49), g.e(50), g.e(51), g.e(52), g.e(53), g.e(54), g.e(55), g.e(56), g.e(57), g.e(58), g.e(59), g.e(60), g.e(61), g.e(62), g.e(63), g.e(64), g.e(65)), el, rl) }
    h_23_w065_at(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); el.log(34); rl.log(162); el.log(35); rl.log(163); el.log(36); rl.log(164); el.log(37); rl.log(165); el.log(38); rl.log(166); el.log(39); rl.log(167); el.log(40); rl.log(168); el.log(41); rl.log(169); el.log(42); rl.log(170); el.log(43); rl.log(171); el.log(44); rl.log(172); el.log(45); rl.log(173); el.log(46); rl.log(174); el.log(47); rl.log(175); el.log(48); rl.log(176); el.log(49); rl.log(177); el.log(50); rl.log(178); el.log(51); rl.log(179); el.log(52); rl.log(180); el.log(53); rl.log(181); el.log(54); rl.log(182); el.log(55); rl.log(183); el.log(56); rl.log(184); el.log(57); rl.log(185); el.log(58); rl.log(186); el.log(59); rl.log(187); el.log(60); rl.log(188); el.log(61); rl.log(189); el.log(62); rl.log(190); el.log(63); rl.log(191); el.log(64); rl.log(192); el.log(65); rl.log(193); lit("<div a1=\"B\" a2=\"C\" a3=\"D\" a4=\"E\" a5=\"F\" a6=\"G\" a7=\"H\" a8=\"I\" a9=\"J\" a10=\"K\" a11=\"L\" a12=\"M\" a13=\"N\" a14=\"O\" a15=\"P\" a16=\"Q\" a17=\"R\" a18=\"S\" a19=\"T\" a20=\"U\" a21=\"V\" a22=\"W\" a23=\"X\" a24=\"Y\" a25=\"Z\" a26=\"A\" a27=\"B\" a28=\"C\" a29=\"D\" a30=\"E\" a31=\"F\" a32=\"G\" a33=\"H\" a34=\"I\" a35=\"J\" a36=\"K\" a37=\"L\" a38=\"M\" a39=\"N\" a40=\"O\" a41=\"P\" a42=\"Q\" a43=\"R\" a44=\"S\" a45=\"T\" a46=\"U\" a47=\"V\" a48=\"W\" a49=\"X\" a50=\"Y\" a51=\"Z\" a52=\"A\" a53=\"B\" a54=\"C\" a55=\"D\" a56=\"E\" a57=\"F\" a58=\"G\" a59=\"H\" a60=\"I\" a61=\"J\" a62=\"K\" a63=\"L\" a64=\"M\" a65=\"N\"></div>"); go!(b, g, div!(a1 = g.e(1), a2 = g.e(2), a3 = g.e(3), a4 = g.e(4), a5 = g.e(5), a6 = g.e(6), a7 = g.e(7), a8 = g.e(8), a9 = g.e(9), a10 = g.e(10), a11 = g.e(11), a12 = g.e(12), a13 = g.e(13), a14 = g.e(14), a15 = g.e(15), a16 = g.e(16), a17 = g.e(17), a18 = g.e(18), a19 = g.e(19), a20 = g.e(20), a21 = g.e(21), a22 = g.e(22), a23 = g.e(23), a24 = g.e(24), a25 = g.e(25), a26 = g.e(26), a27 = g.e(27), a28 = g.e(28), a29 = g.e(29), a30 = g.e(30), a31 = g.e(31), a32 = g.e(32), a33 = g.e(33), a34 = g.e(34), a35 = g.e(35), a36 = g.e(36), a37 = g.e(37), a38 = g.e(38), a39 = g.e(39), a40 = g.e(40), a41 = g.e(41), a42 = g.e(42), a43 = g.e(43), a44 = g.e(44), a45 = g.e(45), a46 = g.e(46), a47 = g.e(47), a48 = g.e(48), a49 = g.e(49), a50 = g.e(50), a51 = g.e(51), a52 = g.e(52), a53 = g.e(53), a54 = g.e(54), a55 = g.e(55), a56 = g.e(56), a57 = g.e(57), a58 = g.e(58), a59 = g.e(59), a60 = g.e(60), a61 = g.e(61), a62 = g.e(62), a63 = g.e(63), a64 = g.e(64), a65 = g.e(65)), el, rl) }
    h_23_w065_mx(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); el.log(34); rl.log(162); el.log(35); rl.log(163); el.log(36); rl.log(164); el.log(37); rl.log(165); el.log(38); rl.log(166); el.log(39); rl.log(167); el.log(40); rl.log(168); el.log(41); rl.log(169); el.log(42); rl.log(170); el.log(43); rl.log(171); el.log(44); rl.log(172); el.log(45); rl.log(173); el.log(46); rl.log(174); el.log(47); rl.log(175); el.log(48); rl.log(176); el.log(49); rl.log(177); el.log(50); rl.log(178); el.log(51); rl.log(179); el.log(52); rl.log(180); el.log(53); rl.log(181); el.log(54); rl.log(182); el.log(55); rl.log(183); el.log(56); rl.log(184); el.log(57); rl.log(185); el.log(58); rl.log(186); el.log(59); rl.log(187); el.log(60); rl.log(188); el.log(61); rl.log(189); el.log(62); rl.log(190); el.log(63); rl.log(191); el.log(64); rl.log(192); el.log(65); rl.log(193); lit("<p a1=\"B\" a2=\"C\" a3=\"D\" a4=\"E\" a5=\"F\" a6=\"G\" a7=\"H\" a8=\"I\" a9=\"J\" a10=\"K\" a11=\"L\" a12=\"M\" a13=\"N\" a14=\"O\" a15=\"P\" a16=\"Q\" a17=\"R\" a18=\"S\" a19=\"T\" a20=\"U\" a21=\"V\" a22=\"W\" a23=\"X\" a24=\"Y\" a25=\"Z\" a26=\"A\" a27=\"B\" a28=\"C\" a29=\"D\" a30=\"E\" a31=\"F\" a32=\"G\">H.I.J.K.L.M.N.O.P.Q.R.S.T.U.V.W.X.Y.Z.A.B.C.D.E.F.G.H.I.J.K.L.M.N.</p>"); go!(b, g, p!(g.e(33), ".", g.e(34), ".", g.e(35), ".", g.e(36), ".", g.e(37), ".", g.e(38), ".", g.e(39), ".", g.e(40), ".", g.e(41), ".", g.e(42), ".", g.e(43), ".", g.e(44), ".", g.e(45), ".", g.e(46), ".", g.e(47), ".", g.e(48), ".", g.e(49), ".", g.e(50), ".", g.e(51), ".", g.e(52), ".", g.e(53), ".", g.e(54), ".", g.e(55), ".", g.e(56), ".", g.e(57), ".", g.e(58), ".", g.e(59), ".", g.e(60), ".", g.e(61), ".", g.e(62), ".", g.e(63), ".", g.e(64), ".", g.e(65), ".", a1 = g.e(1), a2 = g.e(2), a3 = g.e(3), a4 = g.e(4), a5 = g.e(5), a6 = g.e(6), a7 = g.e(7), a8 = g.e(8), a9 = g.e(9), a10 = g.e(10), a11 = g.e(11), a12 = g.e(12), a13 = g.e(13), a14 = g.e(14), a15 = g.e(15), a16 = g.e(16), a17 = g.e(17), a18 = g.e(18), a19 = g.e(19), a20 = g.e(20), a21 = g.e(21), a22 = g.e(22), a23 = g.e(23), a24 = g.e(24), a25 = g.e(25), a26 = g.e(26), a27 = g.e(27), a28 = g.e(28), a29 = g.e(29), a30 = g.e(30), a31 = g.e(31), a32 = g.e(32)), el, rl) }
    h_23_w065_cl(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); el.log(34); rl.log(162); el.log(35); rl.log(163); el.log(36); rl.log(164); el.log(37); rl.log(165); el.log(38); rl.log(166); el.log(39); rl.log(167); el.log(40); rl.log(168); el.log(41); rl.log(169); el.log(42); rl.log(170); el.log(43); rl.log(171); el.log(44); rl.log(172); el.log(45); rl.log(173); el.log(46); rl.log(174); el.log(47); rl.log(175); el.log(48); rl.log(176); el.log(49); rl.log(177); el.log(50); rl.log(178); el.log(51); rl.log(179); el.log(52); rl.log(180); el.log(53); rl.log(181); el.log(54); rl.log(182); el.log(55); rl.log(183); el.log(56); rl.log(184); el.log(57); rl.log(185); el.log(58); rl.log(186); el.log(59); rl.log(187); el.log(60); rl.log(188); el.log(61); rl.log(189); el.log(62); rl.log(190); el.log(63); rl.log(191); el.log(64); rl.log(192); el.log(65); rl.log(193); lit("B C D E F G H I J K L M N O P Q R S T U V W X Y Z A B C D E F G H I J K L M N O P Q R S T U V W X Y Z A B C D E F G H I J K L M N"); go!(b, g, classes!(g.e(1), g.e(2), g.e(3), g.e(4), g.e(5), g.e(6), g.e(7), g.e(8), g.e(9), g.e(10), g.e(11), g.e(12), g.e(13), g.e(14), g.e(15), g.e(16), g.e(17), g.e(18), g.e(19), g.e(20), g.e(21), g.e(22), g.e(23), g.e(24), g.e(25), g.e(26), g.e(27), g.e(28), g.e(29), g.e(30), g.e(31), g.e(32), g.e(33), g.e(34), g.e(35), g.e(36), g.e(37), g.e(38), g.e(39), g.e(40), g.e(41), g.e(42), g.e(43), g.e(44), g.e(45), g.e(46), g.e(47), g.e(48), g.e(49), g.e(50), g.e(51), g.e(52), g.e(53), g.e(54), g.e(55), g.e(56), g.e(57), g.e(58), g.e(59), g.e(60), g.e(61), g.e(62), g.e(63), g.e(64), g.e(65)), el, rl) }
    h_23_w065_ne(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); el.log(34); rl.log(162); el.log(35); rl.log(163); el.log(36); rl.log(164); el.log(37); rl.log(165); el.log(38); rl.log(166); el.log(39); rl.log(167); el.log(40); rl.log(168); el.log(41); rl.log(169); el.log(42); rl.log(170); el.log(43); rl.log(171); el.log(44); rl.log(172); el.log(45); rl.log(173); el.log(46); rl.log(174); el.log(47); rl.log(175); el.log(48); rl.log(176); el.log(49); rl.log(177); el.log(50); rl.log(178); el.log(51); rl.log(179); el.log(52); rl.log(180); el.log(53); rl.log(181); el.log(54); rl.log(182); el.log(55); rl.log(183); el.log(56); rl.log(184); el.log(57); rl.log(185); el.log(58); rl.log(186); el.log(59); rl.log(187); el.log(60); rl.log(188); el.log(61); rl.log(189); el.log(62); rl.log(190); el.log(63); rl.log(191); el.log(64); rl.log(192); el.log(65); rl.log(193); lit("<b>B<b>C<b>D<b>E<b>F<b>G<b>H<b>I<b>J<b>K<b>L<b>M<b>N<b>O<b>P<b>Q<b>R<b>S<b>T<b>U<b>V<b>W<b>X<b>Y<b>Z<b>A<b>B<b>C<b>D<b>E<b>F<b>G<b>H<b>I<b>J<b>K<b>L<b>M<b>N<b>O<b>P<b>Q<b>R<b>S<b>T<b>U<b>V<b>W<b>X<b>Y<b>Z<b>A<b>B<b>C<b>D<b>E<b>F<b>G<b>H<b>I<b>J<b>K<b>L<b>M<b>N</b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b>"); go!(b, g, b!(g.e(1), b!(g.e(2), b!(g.e(3), b!(g.e(4), b!(g.e(5), b!(g.e(6), b!(g.e(7), b!(g.e(8), b!(g.e(9), b!(g.e(10), b!(g.e(11), b!(g.e(12), b!(g.e(13), b!(g.e(14), b!(g.e(15), b!(g.e(16), b!(g.e(17), b!(g.e(18), b!(g.e(19), b!(g.e(20), b!(g.e(21), b!(g.e(22), b!(g.e(23), b!(g.e(24), b!(g.e(25), b!(g.e(26), b!(g.e(27), b!(g.e(28), b!(g.e(29), b!(g.e(30), b!(g.e(31), b!(g.e(32), b!(g.e(33), b!(g.e(34), b!(g.e(35), b!(g.e(36), b!(g.e(37), b!(g.e(38), b!(g.e(39), b!(g.e(40), b!(g.e(41), b!(g.e(42), b!(g.e(43), b!(g.e(44), b!(g.e(45), b!(g.e(46), b!(g.e(47), b!(g.e(48), b!(g.e(49), b!(g.e(50), b!(g.e(51), b!(g.e(52), b!(g.e(53), b!(g.e(54), b!(g.e(55), b!(g.e(56), b!(g.e(57), b!(g.e(58), b!(g.e(59), b!(g.e(60), b!(g.e(61), b!(g.e(62), b!(g.e(63), b!(g.e(64), b!(g.e(65)))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))), el, rl) }
    h_23_w100_ch(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); el.log(34); rl.log(162); el.log(35); rl.log(163); el.log(36); rl.log(164); el.log(37); rl.log(165); el.log(38); rl.log(166); el.log(39); rl.log(167); el.log(40); rl.log(168); el.log(41); rl.log(169); el.log(42); rl.log(170); el.log(43); rl.log(171); el.log(44); rl.log(172); el.log(45); rl.log(173); el.log(46); rl.log(174); el.log(47); rl.log(175); el.log(48); rl.log(176); el.log(49); rl.log(177); el.log(50); rl.log(178); el.log(51); rl.log(179); el.log(52); rl.log(180); el.log(53); rl.log(181); el.log(54); rl.log(182); el.log(55); rl.log(183); el.log(56); rl.log(184); el.log(57); rl.log(185); el.log(58); rl.log(186); el.log(59); rl.log(187); el.log(60); rl.log(188); el.log(61); rl.log(189); el.log(62); rl.log(190); el.log(63); rl.log(191); el.log(64); rl.log(192); el.log(65); rl.log(193); el.log(66); rl.log(194); el.log(67); rl.log(195); el.log(68); rl.log(196); el.log(69); rl.log(197); el.log(70); rl.log(198); el.log(71); rl.log(199); el.log(72); rl.log(200); el.log(73); rl.log(201); el.log(74); rl.log(202); el.log(75); rl.log(203); el.log(76); rl.log(204); el.log(77); rl.log(205); el.log(78); rl.log(206); el.log(79); rl.log(207); el.log(80); rl.log(208); el.log(81); rl.log(209); el.log(82); rl.log(210); el.log(83); rl.log(211); el.log(84); rl.log(212); el.log(85); rl.log(213); el.log(86); rl.log(214); el.log(87); rl.log(215); el.log(88); rl.log(216); el.log(89); rl.log(217); el.log(90); rl.log(218); el.log(91); rl.log(219); el.log(92); rl.log(220); el.log(93); rl.log(221); el.log(94); rl.log(222); el.log(95); rl.log(223); el.log(96); rl.log(224); el.log(97); rl.log(225); el.log(98); rl.log(226); el.log(99); rl.log(227); el.log(100); rl.log(228); lit("<div>BCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVW</div>"); go!(b, g, div!(g.e(1), g.e(2), g.e(3), g.e(4), g.e(5), g.e(6), g.e(7), g.e(8), g.e(9), g.e(10), g.e(11), g.e(12), g.e(13), g.e(14), g.e(15), g.e(16), g.e(17), g.e(18), g.e(19), g.e(20), g.e(21), g.e(22), g.e(23), g.e(24), g.e(25), g.e(26), g.e(27), g.e(28), g.e(29), g.e(30), g.e(31), g.e(32), g.e(33), g.e(34), g.e(35), g.e(36), g.e(37), g.e(38), g.e(39), g.e(40), g.e(41), g.e(42), g.e(43), g.e(44), g.e(45), g.e(46), g.e(47), g.e(48), g.e(49), g.e(50), g.e(51), g.e(52), g.e(53), g.e(54), g.e(55), g.e(56), g.e(57), g.e(58), g.e(59), g.e(60), g.e(61), g.e(62), g.e(63), g.e(64), g.e(65), g.e(66), g.e(67), g.e(68), g.e(69), g.e(70), g.e(71), g.e(72), g.e(73), g.e(74), g.e(75), g.e(76), g.e(77), g.e(78), g.e(79), g.e(80), g.e(81), g.e(82), g.e(83), g.e(84), g.e(85), g.e(86), g.e(87), g.e(88), g.e(89), g.e(90), g.e(91), g.e(92), g.e(93), g.e(94), g.e(95), g.e(96), g.e(97), g.e(98), g.e(99), g.e(100)), el, rl) }
    h_23_w100_at(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); el.log(34); rl.log(162); el.log(35); rl.log(163); el.log(36); rl.log(164); el.log(37); rl.log(165); el.log(38); rl.log(166); el.log(39); rl.log(167); el.log(40); rl.log(168); el.log(41); rl.log(169); el.log(42); rl.log(170); el.log(43); rl.log(171); el.log(44); rl.log(172); el.log(45); rl.log(173); el.log(46); rl.log(174); el.log(47); rl.log(175); el.log(48); rl.log(176); el.log(49); rl.log(177); el.log(50); rl.log(178); el.log(51); rl.log(179); el.log(52); rl.log(180); el.log(53); rl.log(181); el.log(54); rl.log(182); el.log(55); rl.log(183); el.log(56); rl.log(184); el.log(57); rl.log(185); el.log(58); rl.log(186); el.log(59); rl.log(187); el.log(60); rl.log(188); el.log(61); rl.log(189); el.log(62); rl.log(190); el.log(63); rl.log(191); el.log(64); rl.log(192); el.log(65); rl.log(193); el.log(66); rl.log(194); el.log(67); rl.log(195); el.log(68); rl.log(196); el.log(69); rl.log(197); el.log(70); rl.log(198); el.log(71); rl.log(199); el.log(72); rl.log(200); el.log(73); rl.log(201); el.log(74); rl.log(202); el.log(75); rl.log(203); el.log(76); rl.log(204); el.log(77); rl.log(205); el.log(78); rl.log(206); el.log(79); rl.log(207); el.log(80); rl.log(208); el.log(81); rl.log(209); el.log(82); rl.log(210); el.log(83); rl.log(211); el.log(84); rl.log(212); el.log(85); rl.log(213); el.log(86); rl.log(214); el.log(87); rl.log(215); el.log(88); rl.log(216); el.log(89); rl.log(217); el.log(90); rl.log(218); el.log(91); rl.log(219); el.log(92); rl.log(220); el.log(93); rl.log(221); el.log(94); rl.log(222); el.log(95); rl.log(223); el.log(96); rl.log(224); el.log(97); rl.log(225); el.log(98); rl.log(226); el.log(99); rl.log(227); el.log(100); rl.log(228); lit("<div a1=\"B\" a2=\"C\" a3=\"D\" a4=\"E\" a5=\"F\" a6=\"G\" a7=\"H\" a8=\"I\" a9=\"J\" a10=\"K\" a11=\"L\" a12=\"M\" a13=\"N\" a14=\"O\" a15=\"P\" a16=\"Q\" a17=\"R\" a18=\"S\" a19=\"T\" a20=\"U\" a21=\"V\" a22=\"W\" a23=\"X\" a24=\"Y\" a25=\"Z\" a26=\"A\" a27=\"B\" a28=\"C\" a29=\"D\" a30=\"E\" a31=\"F\" a32=\"G\" a33=\"H\" a34=\"I\" a35=\"J\" a36=\"K\" a37=\"L\" a38=\"M\" a39=\"N\" a40=\"O\" a41=\"P\" a42=\"Q\" a43=\"R\" a44=\"S\" a45=\"T\" a46=\"U\" a47=\"V\" a48=\"W\" a49=\"X\" a50=\"Y\" a51=\"Z\" a52=\"A\" a53=\"B\" a54=\"C\" a55=\"D\" a56=\"E\" a57=\"F\" a58=\"G\" a59=\"H\" a60=\"I\" a61=\"J\" a62=\"K\" a63=\"L\" a64=\"M\" a65=\"N\" a66=\"O\" a67=\"P\" a68=\"Q\" a69=\"R\" a70=\"S\" a71=\"T\" a72=\"U\" a73=\"V\" a74=\"W\" a75=\"X\" a76=\"Y\" a77=\"Z\" a78=\"A\" a79=\"B\" a80=\"C\" a81=\"D\" a82=\"E\" a83=\"F\" a84=\"G\" a85=\"H\" a86=\"I\" a87=\"J\" a88=\"K\" a89=\"L\" a90=\"M\" a91=\"N\" a92=\"O\" a93=\"P\" a94=\"Q\" a95=\"R\" a96=\"S\" a97=\"T\" a98=\"U\" a99=\"V\" a100=\"W\"></div>"); go!(b, g, div!(a1 = g.e(1), a2 = g.e(2), a3 = g.e(3), a4 = g.e(4), a5 = g.e(5), a6 = g.e(6), a7 = g.e(7), a8 = g.e(8), a9 = g.e(9), a10 = g.e(10), a11 = g.e(11), a12 = g.e(12), a13 = g.e(13), a14 = g.e(14), a15 = g.e(15), a16 = g.e(16), a17 = g.e(17), a18 = g.e(18), a19 = g.e(19), a20 = g.e(20), a21 = g.e(21), a22 = g.e(22), a23 = g.e(23), a24 = g.e(24), a25 = g.e(25), a26 = g.e(26), a27 = g.e(27), a28 = g.e(28), a29 = g.e(29), a30 = g.e(30), a31 = g.e(31), a32 = g.e(32), a33 = g.e(33), a34 = g.e(34), a35 = g.e(35), a36 = g.e(36), a37 = g.e(37), a38 = g.e(38), a39 = g.e(39), a40 = g.e(40), a41 = g.e(41), a42 = g.e(42), a43 = g.e(43), a44 = g.e(44), a45 = g.e(45), a46 = g.e(46), a47 = g.e(47), a48 = g.e(48), a49 = g.e(49), a50 = g.e(50), a51 = g.e(51), a52 = g.e(52), a53 = g.e(53), a54 = g.e(54), a55 = g.e(55), a56 = g.e(56), a57 = g.e(57), a58 = g.e(58), a59 = g.e(59), a60 = g.e(60), a61 = g.e(61), a62 = g.e(62), a63 = g.e(63), a64 = g.e(64), a65 = g.e(65), a66 = g.e(66), a67 = g.e(67), a68 = g.e(68), a69 = g.e(69), a70 = g.e(70), a71 = g.e(71), a72 = g.e(72), a73 = g.e(73), a74 = g.e(74), a75 = g.e(75), a76 = g.e(76), a77 = g.e(77), a78 = g.e(78), a79 = g.e(79), a80 = g.e(80), a81 = g.e(81), a82 = g.e(82), a83 = g.e(83), a84 = g.e(84), a85 = g.e(85), a86 = g.e(86), a87 = g.e(87), a88 = g.e(88), a89 = g.e(89), a90 = g.e(90), a91 = g.e(91), a92 = g.e(92), a93 = g.e(93), a94 = g.e(94), a95 = g.e(95), a96 = g.e(96), a97 = g.e(97), a98 = g.e(98), a99 = g.e(99), a100 = g.e(100)), el, rl) }
    h_23_w100_mx(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); el.log(34); rl.log(162); el.log(35); rl.log(163); el.log(36); rl.log(164); el.log(37); rl.log(165); el.log(38); rl.log(166); el.log(39); rl.log(167); el.log(40); rl.log(168); el.log(41); rl.log(169); el.log(42); rl.log(170); el.log(43); rl.log(171); el.log(44); rl.log(172); el.log(45); rl.log(173); el.log(46); rl.log(174); el.log(47); rl.log(175); el.log(48); rl.log(176); el.log(49); rl.log(177); el.log(50); rl.log(178); el.log(51); rl.log(179); el.log(52); rl.log(180); el.log(53); rl.log(181); el.log(54); rl.log(182); el.log(55); rl.log(183); el.log(56); rl.log(184); el.log(57); rl.log(185); el.log(58); rl.log(186); el.log(59); rl.log(187); el.log(60); rl.log(188); el.log(61); rl.log(189); el.log(62); rl.log(190); el.log(63); rl.log(191); el.log(64); rl.log(192); el.log(65); rl.log(193); el.log(66); rl.log(194); el.log(67); rl.log(195); el.log(68); rl.log(196); el.log(69); rl.log(197); el.log(70); rl.log(198); el.log(71); rl.log(199); el.log(72); rl.log(200); el.log(73); rl.log(201); el.log(74); rl.log(202); el.log(75); rl.log(203); el.log(76); rl.log(204); el.log(77); rl.log(205); el.log(78); rl.log(206); el.log(79); rl.log(207); el.log(80); rl.log(208); el.log(81); rl.log(209); el.log(82); rl.log(210); el.log(83); rl.log(211); el.log(84); rl.log(212); el.log(85); rl.log(213); el.log(86); rl.log(214); el.log(87); rl.log(215); el.log(88); rl.log(216); el.log(89); rl.log(217); el.log(90); rl.log(218); el.log(91); rl.log(219); el.log(92); rl.log(220); el.log(93); rl.log(221); el.log(94); rl.log(222); el.log(95); rl.log(223); el.log(96); rl.log(224); el.log(97); rl.log(225); el.log(98); rl.log(226); el.log(99); rl.log(227); el.log(100); rl.log(228); lit("<p a1=\"B\" a2=\"C\" a3=\"D\" a4=\"E\" a5=\"F\" a6=\"G\" a7=\"H\" a8=\"I\" a9=\"J\" a10=\"K\" a11=\"L\" a12=\"M\" a13=\"N\" a14=\"O\" a15=\"P\" a16=\"Q\" a17=\"R\" a18=\"S\" a19=\"T\" a20=\"U\" a21=\"V\" a22=\"W\" a23=\"X\" a24=\"Y\" a25=\"Z\" a26=\"A\" a27=\"B\" a28=\"C\" a29=\"D\" a30=\"E\" a31=\"F\" a32=\"G\" a33=\"H\" a34=\"I\" a35=\"J\" a36=\"K\" a37=\"L\" a38=\"M\" a39=\"N\" a40=\"O\" a41=\"P\" a42=\"Q\" a43=\"R\" a44=\"S\" a45=\"T\" a46=\"U\" a47=\"V\" a48=\"W\" a49=\"X\" a50=\"Y\">Z.A.B.C.D.E.F.G.H.I.J.K.L.M.N.O.P.Q.R.S.T.U.V.W.X.Y.Z.A.B.C.D.E.F.G.H.I.J.K.L.M.N.O.P.Q.R.S.T.U.V.W.</p>"); go!(b, g, p!(g.e(51), ".", g.e(52), ".", g.e(53), ".", g.e(54), ".", g.e(55), ".", g.e(56), ".", g.e(57), ".", g.e(58), ".", g.e(59), ".", g.e(60), ".", g.e(61), ".", g.e(62), ".", g.e(63), ".", g.e(64), ".", g.e(65), ".", g.e(66), ".", g.e(67), ".", g.e(68), ".", g.e(69), ".", g.e(70), ".", g.e(71), ".", g.e(72), ".", g.e(73), ".", g.e(74), ".", g.e(75), ".", g.e(76), ".", g.e(77), ".", g.e(78), ".", g.e(79), ".", g.e(80), ".", g.e(81), ".", g.e(82), ".", g.e(83), ".", g.e(84), ".", g.e(85), ".", g.e(86), ".", g.e(87), ".", g.e(88), ".", g.e(89), ".", g.e(90), ".", g.e(91), ".", g.e(92), ".", g.e(93), ".", g.e(94), ".", g.e(95), ".", g.e(96), ".", g.e(97), ".", g.e(98), ".", g.e(99), ".", g.e(100), ".", a1 = g.e(1), a2 = g.e(2), a3 = g.e(3), a4 = g.e(4), a5 = g.e(5), a6 = g.e(6), a7 = g.e(7), a8 = g.e(8), a9 = g.e(9), a10 = g.e(10), a11 = g.e(11), a12 = g.e(12), a13 = g.e(13), a14 = g.e(14), a15 = g.e(15), a16 = g.e(16), a17 = g.e(17), a18 = g.e(18), a19 = g.e(19), a20 = g.e(20), a21 = g.e(21), a22 = g.e(22), a23 = g.e(23), a24 = g.e(24), a25 = g.e(25), a26 = g.e(26), a27 = g.e(27), a28 = g.e(28), a29 = g.e(29), a30 = g.e(30), a31 = g.e(31), a32 = g.e(32), a33 = g.e(33), a34 = g.e(34), a35 = g.e(35), a36 = g.e(36), a37 = g.e(37), a38 = g.e(38), a39 = g.e(39), a40 = g.e(40), a41 = g.e(41), a42 = g.e(42), a43 = g.e(43), a44 = g.e(44), a45 = g.e(45), a46 = g.e(46), a47 = g.e(47), a48 = g.e(48), a49 = g.e(49), a50 = g.e(50)), el, rl) }
    h_23_w100_cl(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); el.log(34); rl.log(162); el.log(35); rl.log(163); el.log(36); rl.log(164); el.log(37); rl.log(165); el.log(38); rl.log(166); el.log(39); rl.log(167); el.log(40); rl.log(168); el.log(41); rl.log(169); el.log(42); rl.log(170); el.log(43); rl.log(171); el.log(44); rl.log(172); el.log(45); rl.log(173); el.log(46); rl.log(174); el.log(47); rl.log(175); el.log(48); rl.log(176); el.log(49); rl.log(177); el.log(50); rl.log(178); el.log(51); rl.log(179); el.log(52); rl.log(180); el.log(53); rl.log(181); el.log(54); rl.log(182); el.log(55); rl.log(183); el.log(56); rl.log(184); el.log(57); rl.log(185); el.log(58); rl.log(186); el.log(59); rl.log(187); el.log(60); rl.log(188); el.log(61); rl.log(189); el.log(62); rl.log(190); el.log(63); rl.log(191); el.log(64); rl.log(192); el.log(65); rl.log(193); el.log(66); rl.log(194); el.log(67); rl.log(195); el.log(68); rl.log(196); el.log(69); rl.log(197); el.log(70); rl.log(198); el.log(71); rl.log(199); el.log(72); rl.log(200); el.log(73); rl.log(201); el.log(74); rl.log(202); el.log(75); rl.log(203); el.log(76); rl.log(204); el.log(77); rl.log(205); el.log(78); rl.log(206); el.log(79); rl.log(207); el.log(80); rl.log(208); el.log(81); rl.log(209); el.log(82); rl.log(210); el.log(83); rl.log(211); el.log(84); rl.log(212); el.log(85); rl.log(213); el.log(86); rl.log(214); el.log(87); rl.log(215); el.log(88); rl.log(216); el.log(89); rl.log(217); el.log(90); rl.log(218); el.log(91); rl.log(219); el.log(92); rl.log(220); el.log(93); rl.log(221); el.log(94); rl.log(222); el.log(95); rl.log(223); el.log(96); rl.log(224); el.log(97); rl.log(225); el.log(98); rl.log(226); el.log(99); rl.log(227); el.log(100); rl.log(228); lit("B C D E F G H I J K L M N O P Q R S T U V W X Y Z A B C D E F G H I J K L M N O P Q R S T U V W X Y Z A B C D E F G H I J K L M N O P Q R S T U V W X Y Z A B C D E F G H I J K L M N O P Q R S T U V W"); go!(b, g, classes!(g.e(1), g.e(2), g.e(3), g.e(4), g.e(5), g.e(6), g.e(7), g.e(8), g.e(9), g.e(10), g.e(11), g.e(12), g.e(13), g.e(14), g.e(15), g.e(16), g.e(17), g.e(18), g.e(19), g.e(20), g.e(21), g.e(22), g.e(23), g.e(24), g.e(25), g.e(26), g.e(27), g.e(28), g.e(29), g.e(30), g.e(31), g.e(32), g.e(33), g.e(34), g.e(35), g.e(36), g.e(37), g.e(38), g.e(39), g.e(40), g.e(41), g.e(42), g.e(43), g.e(44), g.e(45), g.e(46), g.e(47), g.e(48), g.e(49), g.e(50), g.e(51), g.e(52), g.e(53), g.e(54), g.e(55), g.e(56), g.e(57), g.e(58), g.e(59), g.e(60), g.e(61), g.e(62), g.e(63), g.e(64), g.e(65), g.e(66), g.e(67), g.e(68), g.e(69), g.e(70), g.e(71), g.e(72), g.e(73), g.e(74), g.e(75), g.e(76), g.e(77), g.e(78), g.e(79), g.e(80), g.e(81), g.e(82), g.e(83), g.e(84), g.e(85), g.e(86), g.e(87), g.e(88), g.e(89), g.e(90), g.e(91), g.e(92), g.e(93), g.e(94), g.e(95), g.e(96), g.e(97), g.e(98), g.e(99), g.e(100)), el, rl) }
    h_23_w100_ne(b) { let g = G::new(); let el = G::new(); let rl = G::new(); el.log(1); rl.log(129); el.log(2); rl.log(130); el.log(3); rl.log(131); el.log(4); rl.log(132); el.log(5); rl.log(133); el.log(6); rl.log(134); el.log(7); rl.log(135); el.log(8); rl.log(136); el.log(9); rl.log(137); el.log(10); rl.log(138); el.log(11); rl.log(139); el.log(12); rl.log(140); el.log(13); rl.log(141); el.log(14); rl.log(142); el.log(15); rl.log(143); el.log(16); rl.log(144); el.log(17); rl.log(145); el.log(18); rl.log(146); el.log(19); rl.log(147); el.log(20); rl.log(148); el.log(21); rl.log(149); el.log(22); rl.log(150); el.log(23); rl.log(151); el.log(24); rl.log(152); el.log(25); rl.log(153); el.log(26); rl.log(154); el.log(27); rl.log(155); el.log(28); rl.log(156); el.log(29); rl.log(157); el.log(30); rl.log(158); el.log(31); rl.log(159); el.log(32); rl.log(160); el.log(33); rl.log(161); el.log(34); rl.log(162); el.log(35); rl.log(163); el.log(36); rl.log(164); el.log(37); rl.log(165); el.log(38); rl.log(166); el.log(39); rl.log(167); el.log(40); rl.log(168); el.log(41); rl.log(169); el.log(42); rl.log(170); el.log(43); rl.log(171); el.log(44); rl.log(172); el.log(45); rl.log(173); el.log(46); rl.log(174); el.log(47); rl.log(175); el.log(48); rl.log(176); el.log(49); rl.log(177); el.log(50); rl.log(178); el.log(51); rl.log(179); el.log(52); rl.log(180); el.log(53); rl.log(181); el.log(54); rl.log(182); el.log(55); rl.log(183); el.log(56); rl.log(184); el.log(57); rl.log(185); el.log(58); rl.log(186); el.log(59); rl.log(187); el.log(60); rl.log(188); el.log(61); rl.log(189); el.log(62); rl.log(190); el.log(63); rl.log(191); el.log(64); rl.log(192); el.log(65); rl.log(193); el.log(66); rl.log(194); el.log(67); rl.log(195); el.log(68); rl.log(196); el.log(69); rl.log(197); el.log(70); rl.log(198); el.log(71); rl.log(199); el.log(72); rl.log(200); el.log(73); rl.log(201); el.log(74); rl.log(202); el.log(75); rl.log(203); el.log(76); rl.log(204); el.log(77); rl.log(205); el.log(78); rl.log(206); el.log(79); rl.log(207); el.log(80); rl.log(208); el.log(81); rl.log(209); el.log(82); rl.log(210); el.log(83); rl.log(211); el.log(84); rl.log(212); el.log(85); rl.log(213); el.log(86); rl.log(214); el.log(87); rl.log(215); el.log(88); rl.log(216); el.log(89); rl.log(217); el.log(90); rl.log(218); el.log(91); rl.log(219); el.log(92); rl.log(220); el.log(93); rl.log(221); el.log(94); rl.log(222); el.log(95); rl.log(223); el.log(96); rl.log(224); el.log(97); rl.log(225); el.log(98); rl.log(226); el.log(99); rl.log(227); el.log(100); rl.log(228); lit("<b>B<b>C<b>D<b>E<b>F<b>G<b>H<b>I<b>J<b>K<b>L<b>M<b>N<b>O<b>P<b>Q<b>R<b>S<b>T<b>U<b>V<b>W<b>X<b>Y<b>Z<b>A<b>B<b>C<b>D<b>E<b>F<b>G<b>H<b>I<b>J<b>K<b>L<b>M<b>N<b>O<b>P<b>Q<b>R<b>S<b>T<b>U<b>V<b>W<b>X<b>Y<b>Z<b>A<b>B<b>C<b>D<b>E<b>F<b>G<b>H<b>I<b>J<b>K<b>L<b>M<b>N<b>O<b>P<b>Q<b>R<b>S<b>T<b>U<b>V<b>W<b>X<b>Y<b>Z<b>A<b>B<b>C<b>D<b>E<b>F<b>G<b>H<b>I<b>J<b>K<b>L<b>M<b>N<b>O<b>P<b>Q<b>R<b>S<b>T<b>U<b>V<b>W</b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b></b>"); go!(b, g, b!(g.e(1), b!(g.e(2), b!(g.e(3), b!(g.e(4), b!(g.e(5), b!(g.e(6), b!(g.e(7), b!(g.e(8), b!(g.e(9), b!(g.e(10), b!(g.e(11), b!(g.e(12), b!(g.e(13), b!(g.e(14), b!(g.e(15), b!(g.e(16), b!(g.e(17), b!(g.e(18), b!(g.e(19), b!(g.e(20), b!(g.e(21), b!(g.e(22), b!(g.e(23), b!(g.e(24), b!(g.e(25), b!(g.e(26), b!(g.e(27), b!(g.e(28), b!(g.e(29), b!(g.e(30), b!(g.e(31), b!(g.e(32), b!(g.e(33), b!(g.e(34), b!(g.e(35), b!(g.e(36), b!(g.e(37), b!(g.e(38), b!(g.e(39), b!(g.e(40), b!(g.e(41), b!(g.e(42), b!(g.e(43), b!(g.e(44), b!(g.e(45), b!(g.e(46), b!(g.e(47), b!(g.e(48), b!(g.e(49), b!(g.e(50), b!(g.e(51), b!(g.e(52), b!(g.e(53), b!(g.e(54), b!(g.e(55), b!(g.e(56), b!(g.e(57), b!(g.e(58), b!(g.e(59), b!(g.e(60), b!(g.e(61), b!(g.e(62), b!(g.e(63), b!(g.e(64), b!(g.e(65), b!(g.e(66), b!(g.e(67), b!(g.e(68), b!(g.e(69), b!(g.e(70), b!(g.e(71), b!(g.e(72), b!(g.e(73), b!(g.e(74), b!(g.e(75), b!(g.e(76), b!(g.e(77), b!(g.e(78), b!(g.e(79), b!(g.e(80), b!(g.e(81), b!(g.e(82), b!(g.e(83), b!(g.e(84), b!(g.e(85), b!(g.e(86), b!(g.e(87), b!(g.e(88), b!(g.e(89), b!(g.e(90), b!(g.e(91), b!(g.e(92), b!(g.e(93), b!(g.e(94), b!(g.e(95), b!(g.e(96), b!(g.e(97), b!(g.e(98), b!(g.e(99), b!(g.e(100))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))))), el, rl) }
}
