//! wide and deep templates (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
static POOL: [&str; 300] = ["p0", "p1", "p2", "p3<", "p4", "p5", "p6", "p7", "p8", "p9", "p10", "p11", "p12", "p13", "p14", "p15", "p16", "p17", "p18", "p19", "p20<", "p21", "p22", "p23", "p24", "p25", "p26", "p27", "p28", "p29", "p30", "p31", "p32", "p33", "p34", "p35", "p36", "p37<", "p38", "p39", "p40", "p41", "p42", "p43", "p44", "p45", "p46", "p47", "p48", "p49", "p50", "p51", "p52", "p53", "p54<", "p55", "p56", "p57", "p58", "p59", "p60", "p61", "p62", "p63", "p64", "p65", "p66", "p67", "p68", "p69", "p70", "p71<", "p72", "p73", "p74", "p75", "p76", "p77", "p78", "p79", "p80", "p81", "p82", "p83", "p84", "p85", "p86", "p87", "p88<", "p89", "p90", "p91", "p92", "p93", "p94", "p95", "p96", "p97", "p98", "p99", "p100", "p101", "p102", "p103", "p104", "p105<", "p106", "p107", "p108", "p109", "p110", "p111", "p112", "p113", "p114", "p115", "p116", "p117", "p118", "p119", "p120", "p121", "p122<", "p123", "p124", "p125", "p126", "p127", "p128", "p129", "p130", "p131", "p132", "p133", "p134", "p135", "p136", "p137", "p138", "p139<", "p140", "p141", "p142", "p143", "p144", "p145", "p146", "p147", "p148", "p149", "p150", "p151", "p152", "p153", "p154", "p155", "p156<", "p157", "p158", "p159", "p160", "p161", "p162", "p163", "p164", "p165", "p166", "p167", "p168", "p169", "p170", "p171", "p172", "p173<", "p174", "p175", "p176", "p177", "p178", "p179", "p180", "p181", "p182", "p183", "p184", "p185", "p186", "p187", "p188", "p189", "p190<", "p191", "p192", "p193", "p194", "p195", "p196", "p197", "p198", "p199", "p200", "p201", "p202", "p203", "p204", "p205", "p206", "p207<", "p208", "p209", "p210", "p211", "p212", "p213", "p214", "p215", "p216", "p217", "p218", "p219", "p220", "p221", "p222", "p223", "p224<", "p225", "p226", "p227", "p228", "p229", "p230", "p231", "p232", "p233", "p234", "p235", "p236", "p237", "p238", "p239", "p240", "p241<", "p242", "p243", "p244", "p245", "p246", "p247", "p248", "p249", "p250", "p251", "p252", "p253", "p254", "p255", "p256", "p257", "p258<", "p259", "p260", "p261", "p262", "p263", "p264", "p265", "p266", "p267", "p268", "p269", "p270", "p271", "p272", "p273", "p274", "p275<", "p276", "p277", "p278", "p279", "p280", "p281", "p282", "p283", "p284", "p285", "p286", "p287", "p288", "p289", "p290", "p291", "p292<", "p293", "p294", "p295", "p296", "p297", "p298", "p299"];
#[inline(never)] fn s(i: usize) -> &'static str { POOL[i] }
fn idf<T>(v: T) -> T { v }
case! {
    h_29_w009_up(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); lit("<div>p1p2p3&lt;p4p5p6p7p8p9</div>"); end(o_, div!(t1, t2, t3, t4, t5, t6, t7, t8, t9)) }
    h_29_w009_down(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); lit("<div>p9p8p7p6p5p4p3&lt;p2p1</div>"); end(o_, div!(t9, t8, t7, t6, t5, t4, t3, t2, t1)) }
    h_29_w009_attr(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); lit("<div t9=\"p9\" t8=\"p8\" t7=\"p7\" t6=\"p6\" t5=\"p5\" t4=\"p4\" t3=\"p3&lt;\" t2=\"p2\" t1=\"p1\"></div>"); end(o_, div!(t9 = t9, t8 = t8, t7 = t7, t6 = t6, t5 = t5, t4 = t4, t3 = t3, t2 = t2, t1 = t1)) }
    h_29_w009_type(b) { let o_ = b; struct T1(&'static str); impl Render for T1 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T2(&'static str); impl Render for T2 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T3(&'static str); impl Render for T3 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T4(&'static str); impl Render for T4 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T5(&'static str); impl Render for T5 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T6(&'static str); impl Render for T6 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T7(&'static str); impl Render for T7 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T8(&'static str); impl Render for T8 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T9(&'static str); impl Render for T9 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } lit("<div>Tp9Tp8Tp7Tp6Tp5Tp4Tp3&lt;Tp2Tp1</div>"); end(o_, div!(T9(s(9)), T8(s(8)), T7(s(7)), T6(s(6)), T5(s(5)), T4(s(4)), T3(s(3)), T2(s(2)), T1(s(1)))) }
    h_29_w009_fn(b) { let o_ = b; fn t1() -> u16 { 1 } fn t2() -> u16 { 2 } fn t3() -> u16 { 3 } fn t4() -> u16 { 4 } fn t5() -> u16 { 5 } fn t6() -> u16 { 6 } fn t7() -> u16 { 7 } fn t8() -> u16 { 8 } fn t9() -> u16 { 9 } lit("<div>987654321</div>"); end(o_, div!(t9(), t8(), t7(), t6(), t5(), t4(), t3(), t2(), t1())) }
    h_29_w012_up(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); let t10 = s(10); let t11 = s(11); let t12 = s(12); lit("<div>p1p2p3&lt;p4p5p6p7p8p9p10p11p12</div>"); end(o_, div!(t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12)) }
    h_29_w012_down(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); let t10 = s(10); let t11 = s(11); let t12 = s(12); lit("<div>p12p11p10p9p8p7p6p5p4p3&lt;p2p1</div>"); end(o_, div!(t12, t11, t10, t9, t8, t7, t6, t5, t4, t3, t2, t1)) }
    h_29_w012_attr(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); let t10 = s(10); let t11 = s(11); let t12 = s(12); lit("<div t12=\"p12\" t11=\"p11\" t10=\"p10\" t9=\"p9\" t8=\"p8\" t7=\"p7\" t6=\"p6\" t5=\"p5\" t4=\"p4\" t3=\"p3&lt;\" t2=\"p2\" t1=\"p1\"></div>"); end(o_, div!(t12 = t12, t11 = t11, t10 = t10, t9 = t9, t8 = t8, t7 = t7, t6 = t6, t5 = t5, t4 = t4, t3 = t3, t2 = t2, t1 = t1)) }
    h_29_w012_type(b) { let o_ = b; struct T1(&'static str); impl Render for T1 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T2(&'static str); impl Render for T2 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T3(&'static str); impl Render for T3 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T4(&'static str); impl Render for T4 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T5(&'static str); impl Render for T5 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T6(&'static str); impl Render for T6 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T7(&'static str); impl Render for T7 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T8(&'static str); impl Render for T8 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T9(&'static str); impl Render for T9 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T10(&'static str); impl Render for T10 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T11(&'static str); impl Render for T11 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T12(&'static str); impl Render for T12 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } lit("<div>Tp12Tp11Tp10Tp9Tp8Tp7Tp6Tp5Tp4Tp3&lt;Tp2Tp1</div>"); end(o_, div!(T12(s(12)), T11(s(11)), T10(s(10)), T9(s(9)), T8(s(8)), T7(s(7)), T6(s(6)), T5(s(5)), T4(s(4)), T3(s(3)), T2(s(2)), T1(s(1)))) }
    h_29_w012_fn(b) { let o_ = b; fn t1() -> u16 { 1 } fn t2() -> u16 { 2 } fn t3() -> u16 { 3 } fn t4() -> u16 { 4 } fn t5() -> u16 { 5 } fn t6() -> u16 { 6 } fn t7() -> u16 { 7 } fn t8() -> u16 { 8 } fn t9() -> u16 { 9 } fn t10() -> u16 { 10 } fn t11() -> u16 { 11 } fn t12() -> u16 { 12 } lit("<div>121110987654321</div>"); end(o_, div!(t12(), t11(), t10(), t9(), t8(), t7(), t6(), t5(), t4(), t3(), t2(), t1())) }
    h_29_w017_up(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); let t10 = s(10); let t11 = s(11); let t12 = s(12); let t13 = s(13); let t14 = s(14); let t15 = s(15); let t16 = s(16); let t17 = s(17); lit("<div>p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17</div>"); end(o_, div!(t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14, t15, t16, t17)) }
    h_29_w017_down(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); let t10 = s(10); let t11 = s(11); let t12 = s(12); let t13 = s(13); let t14 = s(14); let t15 = s(15); let t16 = s(16); let t17 = s(17); lit("<div>p17p16p15p14p13p12p11p10p9p8p7p6p5p4p3&lt;p2p1</div>"); end(o_, div!(t17, t16, t15, t14, t13, t12, t11, t10, t9, t8, t7, t6, t5, t4, t3, t2, t1)) }
    h_29_w017_attr(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); let t10 = s(10); let t11 = s(11); let t12 = s(12); let t13 = s(13); let t14 = s(14); let t15 = s(15); let t16 = s(16); let t17 = s(17); lit("<div t17=\"p17\" t16=\"p16\" t15=\"p15\" t14=\"p14\" t13=\"p13\" t12=\"p12\" t11=\"p11\" t10=\"p10\" t9=\"p9\" t8=\"p8\" t7=\"p7\" t6=\"p6\" t5=\"p5\" t4=\"p4\" t3=\"p3&lt;\" t2=\"p2\" t1=\"p1\"></div>"); end(o_, div!(t17 = t17, t16 = t16, t15 = t15, t14 = t14, t13 = t13, t12 = t12, t11 = t11, t10 = t10, t9 = t9, t8 = t8, t7 = t7, t6 = t6, t5 = t5, t4 = t4, t3 = t3, t2 = t2, t1 = t1)) }
    h_29_w017_type(b) { let o_ = b; struct T1(&'static str); impl Render for T1 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T2(&'static str); impl Render for T2 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T3(&'static str); impl Render for T3 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T4(&'static str); impl Render for T4 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T5(&'static str); impl Render for T5 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T6(&'static str); impl Render for T6 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T7(&'static str); impl Render for T7 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T8(&'static str); impl Render for T8 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T9(&'static str); impl Render for T9 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T10(&'static str); impl Render for T10 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T11(&'static str); impl Render for T11 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T12(&'static str); impl Render for T12 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T13(&'static str); impl Render for T13 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T14(&'static str); impl Render for T14 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T15(&'static str); impl Render for T15 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T16(&'static str); impl Render for T16 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T17(&'static str); impl Render for T17 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } lit("<div>Tp17Tp16Tp15Tp14Tp13Tp12Tp11Tp10Tp9Tp8Tp7Tp6Tp5Tp4Tp3&lt;Tp2Tp1</div>"); end(o_, div!(T17(s(17)), T16(s(16)), T15(s(15)), T14(s(14)), T13(s(13)), T12(s(12)), T11(s(11)), T10(s(10)), T9(s(9)), T8(s(8)), T7(s(7)), T6(s(6)), T5(s(5)), T4(s(4)), T3(s(3)), T2(s(2)), T1(s(1)))) }
    h_29_w017_fn(b) { let o_ = b; fn t1() -> u16 { 1 } fn t2() -> u16 { 2 } fn t3() -> u16 { 3 } fn t4() -> u16 { 4 } fn t5() -> u16 { 5 } fn t6() -> u16 { 6 } fn t7() -> u16 { 7 } fn t8() -> u16 { 8 } fn t9() -> u16 { 9 } fn t10() -> u16 { 10 } fn t11() -> u16 { 11 } fn t12() -> u16 { 12 } fn t13() -> u16 { 13 } fn t14() -> u16 { 14 } fn t15() -> u16 { 15 } fn t16() -> u16 { 16 } fn t17() -> u16 { 17 } lit("<div>1716151413121110987654321</div>"); end(o_, div!(t17(), t16(), t15(), t14(), t13(), t12(), t11(), t10(), t9(), t8(), t7(), t6(), t5(), t4(), t3(), t2(), t1())) }
    h_29_w027_up(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); let t10 = s(10); let t11 = s(11); let t12 = s(12); let t13 = s(13); let t14 = s(14); let t15 = s(15); let t16 = s(16); let t17 = s(17); let t18 = s(18); let t19 = s(19); let t20 = s(20); let t21 = s(21); let t22 = s(22); let t23 = s(23); let t24 = s(24); let t25 = s(25); let t26 = s(26); let t27 = s(27); lit("<div>p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27</div>"); end(o_, div!(t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14, t15, t16, t17, t18, t19, t20, t21, t22, t23, t24, t25, t26, t27)) }
    h_29_w027_down(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); let t10 = s(10); let t11 = s(11); let t12 = s(12); let t13 = s(13); let t14 = s(14); let t15 = s(15); let t16 = s(16); let t17 = s(17); let t18 = s(18); let t19 = s(19); let t20 = s(20); let t21 = s(21); let t22 = s(22); let t23 = s(23); let t24 = s(24); let t25 = s(25); let t26 = s(26); let t27 = s(27); lit("<div>p27p26p25p24p23p22p21p20&lt;p19p18p17p16p15p14p13p12p11p10p9p8p7p6p5p4p3&lt;p2p1</div>"); end(o_, div!(t27, t26, t25, t24, t23, t22, t21, t20, t19, t18, t17, t16, t15, t14, t13, t12, t11, t10, t9, t8, t7, t6, t5, t4, t3, t2, t1)) }
    h_29_w027_attr(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); let t10 = s(10); let t11 = s(11); let t12 = s(12); let t13 = s(13); let t14 = s(14); let t15 = s(15); let t16 = s(16); let t17 = s(17); let t18 = s(18); let t19 = s(19); let t20 = s(20); let t21 = s(21); let t22 = s(22); let t23 = s(23); let t24 = s(24); let t25 = s(25); let t26 = s(26); let t27 = s(27); lit("<div t27=\"p27\" t26=\"p26\" t25=\"p25\" t24=\"p24\" t23=\"p23\" t22=\"p22\" t21=\"p21\" t20=\"p20&lt;\" t19=\"p19\" t18=\"p18\" t17=\"p17\" t16=\"p16\" t15=\"p15\" t14=\"p14\" t13=\"p13\" t12=\"p12\" t11=\"p11\" t10=\"p10\" t9=\"p9\" t8=\"p8\" t7=\"p7\" t6=\"p6\" t5=\"p5\" t4=\"p4\" t3=\"p3&lt;\" t2=\"p2\" t1=\"p1\"></div>"); end(o_, div!(t27 = t27, t26 = t26, t25 = t25, t24 = t24, t23 = t23, t22 = t22, t21 = t21, t20 = t20, t19 = t19, t18 = t18, t17 = t17, t16 = t16, t15 = t15, t14 = t14, t13 = t13, t12 = t12, t11 = t11, t10 = t10, t9 = t9, t8 = t8, t7 = t7, t6 = t6, t5 = t5, t4 = t4, t3 = t3, t2 = t2, t1 = t1)) }
    h_29_w027_type(b) { let o_ = b; struct T1(&'static str); impl Render for T1 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T2(&'static str); impl Render for T2 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T3(&'static str); impl Render for T3 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T4(&'static str); impl Render for T4 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T5(&'static str); impl Render for T5 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T6(&'static str); impl Render for T6 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T7(&'static str); impl Render for T7 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T8(&'static str); impl Render for T8 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T9(&'static str); impl Render for T9 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T10(&'static str); impl Render for T10 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T11(&'static str); impl Render for T11 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T12(&'static str); impl Render for T12 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T13(&'static str); impl Render for T13 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T14(&'static str); impl Render for T14 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T15(&'static str); impl Render for T15 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T16(&'static str); impl Render for T16 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T17(&'static str); impl Render for T17 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T18(&'static str); impl Render for T18 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T19(&'static str); impl Render for T19 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T20(&'static str); impl Render for T20 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T21(&'static str); impl Render for T21 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T22(&'static str); impl Render for T22 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T23(&'static str); impl Render for T23 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T24(&'static str); impl Render for T24 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T25(&'static str); impl Render for T25 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T26(&'static str); impl Render for T26 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T27(&'static str); impl Render for T27 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } lit("<div>Tp27Tp26Tp25Tp24Tp23Tp22Tp21Tp20&lt;Tp19Tp18Tp17Tp16Tp15Tp14Tp13Tp12Tp11Tp10Tp9Tp8Tp7Tp6Tp5Tp4Tp3&lt;Tp2Tp1</div>"); end(o_, div!(T27(s(27)), T26(s(26)), T25(s(25)), T24(s(24)), T23(s(23)), T22(s(22)), T21(s(21)), T20(s(20)), T19(s(19)), T18(s(18)), T17(s(17)), T16(s(16)), T15(s(15)), T14(s(14)), T13(s(13)), T12(s(12)), T11(s(11)), T10(s(10)), T9(s(9)), T8(s(8)), T7(s(7)), T6(s(6)), T5(s(5)), T4(s(4)), T3(s(3)), T2(s(2)), T1(s(1)))) }
    h_29_w027_fn(b) { let o_ = b; fn t1() -> u16 { 1 } fn t2() -> u16 { 2 } fn t3() -> u16 { 3 } fn t4() -> u16 { 4 } fn t5() -> u16 { 5 } fn t6() -> u16 { 6 } fn t7() -> u16 { 7 } fn t8() -> u16 { 8 } fn t9() -> u16 { 9 } fn t10() -> u16 { 10 } fn t11() -> u16 { 11 } fn t12() -> u16 { 12 } fn t13() -> u16 { 13 } fn t14() -> u16 { 14 } fn t15() -> u16 { 15 } fn t16() -> u16 { 16 } fn t17() -> u16 { 17 } fn t18() -> u16 { 18 } fn t19() -> u16 { 19 } fn t20() -> u16 { 20 } fn t21() -> u16 { 21 } fn t22() -> u16 { 22 } fn t23() -> u16 { 23 } fn t24() -> u16 { 24 } fn t25() -> u16 { 25 } fn t26() -> u16 { 26 } fn t27() -> u16 { 27 } lit("<div>272625242322212019181716151413121110987654321</div>"); end(o_, div!(t27(), t26(), t25(), t24(), t23(), t22(), t21(), t20(), t19(), t18(), t17(), t16(), t15(), t14(), t13(), t12(), t11(), t10(), t9(), t8(), t7(), t6(), t5(), t4(), t3(), t2(), t1())) }
    h_29_w033_up(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); let t10 = s(10); let t11 = s(11); let t12 = s(12); let t13 = s(13); let t14 = s(14); let t15 = s(15); let t16 = s(16); let t17 = s(17); let t18 = s(18); let t19 = s(19); let t20 = s(20); let t21 = s(21); let t22 = s(22); let t23 = s(23); let t24 = s(24); let t25 = s(25); let t26 = s(26); let t27 = s(27); let t28 = s(28); let t29 = s(29); let t30 = s(30); let t31 = s(31); let t32 = s(32); let t33 = s(33); lit("<div>p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27p28p29p30p31p32p33</div>"); end(o_, div!(t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14, t15, t16, t17, t18, t19, t20, t21, t22, t23, t24, t25, t26, t27, t28, t29, t30, t31, t32, t33)) }
    h_29_w033_down(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); let t10 = s(10); let t11 = s(11); let t12 = s(12); let t13 = s(13); let t14 = s(14); let t15 = s(15); let t16 = s(16); let t17 = s(17); let t18 = s(18); let t19 = s(19); let t20 = s(20); let t21 = s(21); let t22 = s(22); let t23 = s(23); let t24 = s(24); let t25 = s(25); let t26 = s(26); let t27 = s(27); let t28 = s(28); let t29 = s(29); let t30 = s(30); let t31 = s(31); let t32 = s(32); let t33 = s(33); lit("<div>p33p32p31p30p29p28p27p26p25p24p23p22p21p20&lt;p19p18p17p16p15p14p13p12p11p10p9p8p7p6p5p4p3&lt;p2p1</div>"); end(o_, div!(t33, t32, t31, t30, t29, t28, t27, t26, t25, t24, t23, t22, t21, t20, t19, t18, t17, t16, t15, t14, t13, t12, t11, t10, t9, t8, t7, t6, t5, t4, t3, t2, t1)) }
    h_29_w033_attr(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); let t10 = s(10); let t11 = s(11); let t12 = s(12); let t13 = s(13); let t14 = s(14); let t15 = s(15); let t16 = s(16); let t17 = s(17); let t18 = s(18); let t19 = s(19); let t20 = s(20); let t21 = s(21); let t22 = s(22); let t23 = s(23); let t24 = s(24); let t25 = s(25); let t26 = s(26); let t27 = s(27); let t28 = s(28); let t29 = s(29); let t30 = s(30); let t31 = s(31); let t32 = s(32); let t33 = s(33); lit("<div t33=\"p33\" t32=\"p32\" t31=\"p31\" t30=\"p30\" t29=\"p29\" t28=\"p28\" t27=\"p27\" t26=\"p26\" t25=\"p25\" t24=\"p24\" t23=\"p23\" t22=\"p22\" t21=\"p21\" t20=\"p20&lt;\" t19=\"p19\" t18=\"p18\" t17=\"p17\" t16=\"p16\" t15=\"p15\" t14=\"p14\" t13=\"p13\" t12=\"p12\" t11=\"p11\" t10=\"p10\" t9=\"p9\" t8=\"p8\" t7=\"p7\" t6=\"p6\" t5=\"p5\" t4=\"p4\" t3=\"p3&lt;\" t2=\"p2\" t1=\"p1\"></div>"); end(o_, div!(t33 = t33, t32 = t32, t31 = t31, t30 = t30, t29 = t29, t28 = t28, t27 = t27, t26 = t26, t25 = t25, t24 = t24, t23 = t23, t22 = t22, t21 = t21, t20 = t20, t19 = t19, t18 = t18, t17 = t17, t16 = t16, t15 = t15, t14 = t14, t13 = t13, t12 = t12, t11 = t11, t10 = t10, t9 = t9, t8 = t8, t7 = t7, t6 = t6, t5 = t5, t4 = t4, t3 = t3, t2 = t2, t1 = t1)) }
    h_29_w033_type(b) { let o_ = b; struct T1(&'static str); impl Render for T1 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T2(&'static str); impl Render for T2 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T3(&'static str); impl Render for T3 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T4(&'static str); impl Render for T4 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T5(&'static str); impl Render for T5 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T6(&'static str); impl Render for T6 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T7(&'static str); impl Render for T7 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T8(&'static str); impl Render for T8 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T9(&'static str); impl Render for T9 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T10(&'static str); impl Render for T10 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T11(&'static str); impl Render for T11 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T12(&'static str); impl Render for T12 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T13(&'static str); impl Render for T13 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T14(&'static str); impl Render for T14 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T15(&'static str); impl Render for T15 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T16(&'static str); impl Render for T16 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T17(&'static str); impl Render for T17 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T18(&'static str); impl Render for T18 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T19(&'static str); impl Render for T19 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T20(&'static str); impl Render for T20 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T21(&'static str); impl Render for T21 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T22(&'static str); impl Render for T22 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T23(&'static str); impl Render for T23 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T24(&'static str); impl Render for T24 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T25(&'static str); impl Render for T25 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T26(&'static str); impl Render for T26 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T27(&'static str); impl Render for T27 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T28(&'static str); impl Render for T28 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T29(&'static str); impl Render for T29 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T30(&'static str); impl Render for T30 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T31(&'static str); impl Render for T31 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T32(&'static str); impl Render for T32 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T33(&'static str); impl Render for T33 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } lit("<div>Tp33Tp32Tp31Tp30Tp29Tp28Tp27Tp26Tp25Tp24Tp23Tp22Tp21Tp20&lt;Tp19Tp18Tp17Tp16Tp15Tp14Tp13Tp12Tp11Tp10Tp9Tp8Tp7Tp6Tp5Tp4Tp3&lt;Tp2Tp1</div>"); end(o_, div!(T33(s(33)), T32(s(32)), T31(s(31)), T30(s(30)), T29(s(29)), T28(s(28)), T27(s(27)), T26(s(26)), T25(s(25)), T24(s(24)), T23(s(23)), T22(s(22)), T21(s(21)), T20(s(20)), T19(s(19)), T18(s(18)), T17(s(17)), T16(s(16)), T15(s(15)), T14(s(14)), T13(s(13)), T12(s(12)), T11(s(11)), T10(s(10)), T9(s(9)), T8(s(8)), T7(s(7)), T6(s(6)), T5(s(5)), T4(s(4)), T3(s(3)), T2(s(2)), T1(s(1)))) }
    h_29_w033_fn(b) { let o_ = b; fn t1() -> u16 { 1 } fn t2() -> u16 { 2 } fn t3() -> u16 { 3 } fn t4() -> u16 { 4 } fn t5() -> u16 { 5 } fn t6() -> u16 { 6 } fn t7() -> u16 { 7 } fn t8() -> u16 { 8 } fn t9() -> u16 { 9 } fn t10() -> u16 { 10 } fn t11() -> u16 { 11 } fn t12() -> u16 { 12 } fn t13() -> u16 { 13 } fn t14() -> u16 { 14 } fn t15() -> u16 { 15 } fn t16() -> u16 { 16 } fn t17() -> u16 { 17 } fn t18() -> u16 { 18 } fn t19() -> u16 { 19 } fn t20() -> u16 { 20 } fn t21() -> u16 { 21 } fn t22() -> u16 { 22 } fn t23() -> u16 { 23 } fn t24() -> u16 { 24 } fn t25() -> u16 { 25 } fn t26() -> u16 { 26 } fn t27() -> u16 { 27 } fn t28() -> u16 { 28 } fn t29() -> u16 { 29 } fn t30() -> u16 { 30 } fn t31() -> u16 { 31 } fn t32() -> u16 { 32 } fn t33() -> u16 { 33 } lit("<div>333231302928272625242322212019181716151413121110987654321</div>"); end(o_, div!(t33(), t32(), t31(), t30(), t29(), t28(), t27(), t26(), t25(), t24(), t23(), t22(), t21(), t20(), t19(), t18(), t17(), t16(), t15(), t14(), t13(), t12(), t11(), t10(), t9(), t8(), t7(), t6(), t5(), t4(), t3(), t2(), t1())) }
    h_29_w040_up(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); let t10 = s(10); let t11 = s(11); let t12 = s(12); let t13 = s(13); let t14 = s(14); let t15 = s(15); let t16 = s(16); let t17 = s(17); let t18 = s(18); let t19 = s(19); let t20 = s(20); let t21 = s(21); let t22 = s(22); let t23 = s(23); let t24 = s(24); let t25 = s(25); let t26 = s(26); let t27 = s(27); let t28 = s(28); let t29 = s(29); let t30 = s(30); let t31 = s(31); let t32 = s(32); let t33 = s(33); let t34 = s(34); let t35 = s(35); let t36 = s(36); let t37 = s(37); let t38 = s(38); let t39 = s(39); let t40 = s(40); lit("<div>p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27p28p29p30p31p32p33p34p35p36p37&lt;p38p39p40</div>"); end(o_, div!(t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14, t15, t16, t17, t18, t19, t20, t21, t22, t23, t24, t25, t26, t27, t28, t29, t30, t31, t32, t33, t34, t35, t36, t37, t38, t39, t40)) }
    h_29_w040_down(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); let t10 = s(10); let t11 = s(11); let t12 = s(12); let t13 = s(13); let t14 = s(14); let t15 = s(15); let t16 = s(16); let t17 = s(17); let t18 = s(18); let t19 = s(19); let t20 = s(20); let t21 = s(21); let t22 = s(22); let t23 = s(23); let t24 = s(24); let t25 = s(25); let t26 = s(26); let t27 = s(27); let t28 = s(28); let t29 = s(29); let t30 = s(30); let t31 = s(31); let t32 = s(32); let t33 = s(33); let t34 = s(34); let t35 = s(35); let t36 = s(36); let t37 = s(37); let t38 = s(38); let t39 = s(39); let t40 = s(40); lit("<div>p40p39p38p37&lt;p36p35p34p33p32p31p30p29p28p27p26p25p24p23p22p21p20&lt;p19p18p17p16p15p14p13p12p11p10p9p8p7p6p5p4p3&lt;p2p1</div>"); end(o_, div!(t40, t39, t38, t37, t36, t35, t34, t33, t32, t31, t30, t29, t28, t27, t26, t25, t24, t23, t22, t21, t20, t19, t18, t17, t16, t15, t14, t13, t12, t11, t10, t9, t8, t7, t6, t5, t4, t3, t2, t1)) }
    h_29_w040_attr(b) { let o_ = b; let t1 = s(1); let t2 = s(2); let t3 = s(3); let t4 = s(4); let t5 = s(5); let t6 = s(6); let t7 = s(7); let t8 = s(8); let t9 = s(9); let t10 = s(10); let t11 = s(11); let t12 = s(12); let t13 = s(13); let t14 = s(14); let t15 = s(15); let t16 = s(16); let t17 = s(17); let t18 = s(18); let t19 = s(19); let t20 = s(20); let t21 = s(21); let t22 = s(22); let t23 = s(23); let t24 = s(24); let t25 = s(25); let t26 = s(26); let t27 = s(27); let t28 = s(28); let t29 = s(29); let t30 = s(30); let t31 = s(31); let t32 = s(32); let t33 = s(33); let t34 = s(34); let t35 = s(35); let t36 = s(36); let t37 = s(37); let t38 = s(38); let t39 = s(39); let t40 = s(40); lit("<div t40=\"p40\" t39=\"p39\" t38=\"p38\" t37=\"p37&lt;\" t36=\"p36\" t35=\"p35\" t34=\"p34\" t33=\"p33\" t32=\"p32\" t31=\"p31\" t30=\"p30\" t29=\"p29\" t28=\"p28\" t27=\"p27\" t26=\"p26\" t25=\"p25\" t24=\"p24\" t23=\"p23\" t22=\"p22\" t21=\"p21\" t20=\"p20&lt;\" t19=\"p19\" t18=\"p18\" t17=\"p17\" t16=\"p16\" t15=\"p15\" t14=\"p14\" t13=\"p13\" t12=\"p12\" t11=\"p11\" t10=\"p10\" t9=\"p9\" t8=\"p8\" t7=\"p7\" t6=\"p6\" t5=\"p5\" t4=\"p4\" t3=\"p3&lt;\" t2=\"p2\" t1=\"p1\"></div>"); end(o_, div!(t40 = t40, t39 = t39, t38 = t38, t37 = t37, t36 = t36, t35 = t35, t34 = t34, t33 = t33, t32 = t32, t31 = t31, t30 = t30, t29 = t29, t28 = t28, t27 = t27, t26 = t26, t25 = t25, t24 = t24, t23 = t23, t22 = t22, t21 = t21, t20 = t20, t19 = t19, t18 = t18, t17 = t17, t16 = t16, t15 = t15, t14 = t14, t13 = t13, t12 = t12, t11 = t11, t10 = t10, t9 = t9, t8 = t8, t7 = t7, t6 = t6, t5 = t5, t4 = t4, t3 = t3, t2 = t2, t1 = t1)) }
    h_29_w040_type(b) { let o_ = b; struct T1(&'static str); impl Render for T1 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T2(&'static str); impl Render for T2 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T3(&'static str); impl Render for T3 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T4(&'static str); impl Render for T4 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T5(&'static str); impl Render for T5 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T6(&'static str); impl Render for T6 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T7(&'static str); impl Render for T7 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T8(&'static str); impl Render for T8 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T9(&'static str); impl Render for T9 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T10(&'static str); impl Render for T10 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T11(&'static str); impl Render for T11 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T12(&'static str); impl Render for T12 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T13(&'static str); impl Render for T13 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T14(&'static str); impl Render for T14 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T15(&'static str); impl Render for T15 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T16(&'static str); impl Render for T16 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T17(&'static str); impl Render for T17 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T18(&'static str); impl Render for T18 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T19(&'static str); impl Render for T19 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T20(&'static str); impl Render for T20 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T21(&'static str); impl Render for T21 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T22(&'static str); impl Render for T22 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T23(&'static str); impl Render for T23 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T24(&'static str); impl Render for T24 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T25(&'static str); impl Render for T25 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T26(&'static str); impl Render for T26 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T27(&'static str); impl Render for T27 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T28(&'static str); impl Render for T28 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T29(&'static str); impl Render for T29 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T30(&'static str); impl Render for T30 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T31(&'static str); impl Render for T31 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T32(&'static str); impl Render for T32 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T33(&'static str); impl Render for T33 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T34(&'static str); impl Render for T34 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T35(&'static str); impl Render for T35 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T36(&'static str); impl Render for T36 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T37(&'static str); impl Render for T37 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T38(&'static str); impl Render for T38 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T39(&'static str); impl Render for T39 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } struct T40(&'static str); impl Render for T40 { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } lit("<div>Tp40Tp39Tp38Tp37&lt;Tp36Tp35Tp34Tp33Tp32Tp31Tp30Tp29Tp28Tp27Tp26Tp25Tp24Tp23Tp22Tp21Tp20&lt;Tp19Tp18Tp17Tp16Tp15Tp14Tp13Tp12Tp11Tp10Tp9Tp8Tp7Tp6Tp5Tp4Tp3&lt;Tp2Tp1</div>"); end(o_, div!(T40(s(40)), T39(s(39)), T38(s(38)), T37(s(37)), T36(s(36)), T35(s(35)), T34(s(34)), T33(s(33)), T32(s(32)), T31(s(31)), T30(s(30)), T29(s(29)), T28(s(28)), T27(s(27)), T26(s(26)), T25(s(25)), T24(s(24)), T23(s(23)), T22(s(22)), T21(s(21)), T20(s(20)), T19(s(19)), T18(s(18)), T17(s(17)), T16(s(16)), T15(s(15)), T14(s(14)), T13(s(13)), T12(s(12)), T11(s(11)), T10(s(10)), T9(s(9)), T8(s(8)), T7(s(7)), T6(s(6)), T5(s(5)), T4(s(4)), T3(s(3)), T2(s(2)), T1(s(1)))) }
    h_29_w040_fn(b) { let o_ = b; fn t1() -> u16 { 1 } fn t2() -> u16 { 2 } fn t3() -> u16 { 3 } fn t4() -> u16 { 4 } fn t5() -> u16 { 5 } fn t6() -> u16 { 6 } fn t7() -> u16 { 7 } fn t8() -> u16 { 8 } fn t9() -> u16 { 9 } fn t10() -> u16 { 10 } fn t11() -> u16 { 11 } fn t12() -> u16 { 12 } fn t13() -> u16 { 13 } fn t14() -> u16 { 14 } fn t15() -> u16 { 15 } fn t16() -> u16 { 16 } fn t17() -> u16 { 17 } fn t18() -> u16 { 18 } fn t19() -> u16 { 19 } fn t20() -> u16 { 20 } fn t21() -> u16 { 21 } fn t22() -> u16 { 22 } fn t23() -> u16 { 23 } fn t24() -> u16 { 24 } fn t25() -> u16 { 25 } fn t26() -> u16 { 26 } fn t27() -> u16 { 27 } fn t28() -> u16 { 28 } fn t29() -> u16 { 29 } fn t30() -> u16 { 30 } fn t31() -> u16 { 31 } fn t32() -> u16 { 32 } fn t33() -> u16 { 33 } fn t34() -> u16 { 34 } fn t35() -> u16 { 35 } fn t36() -> u16 { 36 } fn t37() -> u16 { 37 } fn t38() -> u16 { 38 } fn t39() -> u16 { 39 } fn t40() -> u16 { 40 } lit("<div>40393837363534333231302928272625242322212019181716151413121110987654321</div>"); end(o_, div!(t40(), t39(), t38(), t37(), t36(), t35(), t34(), t33(), t32(), t31(), t30(), t29(), t28(), t27(), t26(), t25(), t24(), t23(), t22(), t21(), t20(), t19(), t18(), t17(), t16(), t15(), t14(), t13(), t12(), t11(), t10(), t9(), t8(), t7(), t6(), t5(), t4(), t3(), t2(), t1())) }
}
