//! wide and deep templates (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
static POOL: [&str; 300] = ["p0", "p1", "p2", "p3<", "p4", "p5", "p6", "p7", "p8", "p9", "p10", "p11", "p12", "p13", "p14", "p15", "p16", "p17", "p18", "p19", "p20<", "p21", "p22", "p23", "p24", "p25", "p26", "p27", "p28", "p29", "p30", "p31", "p32", "p33", "p34", "p35", "p36", "p37<", "p38", "p39", "p40", "p41", "p42", "p43", "p44", "p45", "p46", "p47", "p48", "p49", "p50", "p51", "p52", "p53", "p54<", "p55", "p56", "p57", "p58", "p59", "p60", "p61", "p62", "p63", "p64", "p65", "p66", "p67", "p68", "p69", "p70", "p71<", "p72", "p73", "p74", "p75", "p76", "p77", "p78", "p79", "p80", "p81", "p82", "p83", "p84", "p85", "p86", "p87", "p88<", "p89", "p90", "p91", "p92", "p93", "p94", "p95", "p96", "p97", "p98", "p99", "p100", "p101", "p102", "p103", "p104", "p105<", "p106", "p107", "p108", "p109", "p110", "p111", "p112", "p113", "p114", "p115", "p116", "p117", "p118", "p119", "p120", "p121", "p122<", "p123", "p124", "p125", "p126", "p127", "p128", "p129", "p130", "p131", "p132", "p133", "p134", "p135", "p136", "p137", "p138", "p139<", "p140", "p141", "p142", "p143", "p144", "p145", "p146", "p147", "p148", "p149", "p150", "p151", "p152", "p153", "p154", "p155", "p156<", "p157", "p158", "p159", "p160", "p161", "p162", "p163", "p164", "p165", "p166", "p167", "p168", "p169", "p170", "p171", "p172", "p173<", "p174", "p175", "p176", "p177", "p178", "p179", "p180", "p181", "p182", "p183", "p184", "p185", "p186", "p187", "p188", "p189", "p190<", "p191", "p192", "p193", "p194", "p195", "p196", "p197", "p198", "p199", "p200", "p201", "p202", "p203", "p204", "p205", "p206", "p207<", "p208", "p209", "p210", "p211", "p212", "p213", "p214", "p215", "p216", "p217", "p218", "p219", "p220", "p221", "p222", "p223", "p224<", "p225", "p226", "p227", "p228", "p229", "p230", "p231", "p232", "p233", "p234", "p235", "p236", "p237", "p238", "p239", "p240", "p241<", "p242", "p243", "p244", "p245", "p246", "p247", "p248", "p249", "p250", "p251", "p252", "p253", "p254", "p255", "p256", "p257", "p258<", "p259", "p260", "p261", "p262", "p263", "p264", "p265", "p266", "p267", "p268", "p269", "p270", "p271", "p272", "p273", "p274", "p275<", "p276", "p277", "p278", "p279", "p280", "p281", "p282", "p283", "p284", "p285", "p286", "p287", "p288", "p289", "p290", "p291", "p292<", "p293", "p294", "p295", "p296", "p297", "p298", "p299"];
#[inline(never)] fn s(i: usize) -> &'static str { POOL[i] }
fn idf<T>(v: T) -> T { v }
case! {
    h_19_w007_0(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0p1p2p3&lt;p4p5p6"); end(b, frag!(s(0), s(1), s(2), s(3), s(4), s(5), s(6))) } else if d == 0 { lit("p0 p1 p2 p3&lt; p4 p5 p6"); end(b, classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6))) } else { lit("<p class=\"p0 p1 p2 p3&lt; p4 p5 p6\">a b</p>"); end(b, p!(class = classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6)), classes!("a", "b"))) } }
    h_19_w007_1(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("k0p1k2p3&lt;k4p5k6"); end(b, frag!("k0", s(1), "k2", s(3), "k4", s(5), "k6")) } else if d == 0 { lit("k0 p1 k2 p3&lt; k4 p5 k6"); end(b, classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6")) } else { lit("<p class=\"k0 p1 k2 p3&lt; k4 p5 k6\">a b</p>"); end(b, p!(class = classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6"), classes!("a", "b"))) } }
    h_19_w007_2(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>"); end(b, frag!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!())) } else if d == 0 { lit("p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br>"); end(b, classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!())) } else { lit("<p class=\"p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br>\">a b</p>"); end(b, p!(class = classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!()), classes!("a", "b"))) } }
    h_19_w008_0(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0p1p2p3&lt;p4p5p6p7"); end(b, frag!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7))) } else if d == 0 { lit("p0 p1 p2 p3&lt; p4 p5 p6 p7"); end(b, classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7))) } else { lit("<p class=\"p0 p1 p2 p3&lt; p4 p5 p6 p7\">a b</p>"); end(b, p!(class = classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7)), classes!("a", "b"))) } }
    h_19_w008_1(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("k0p1k2p3&lt;k4p5k6p7"); end(b, frag!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7))) } else if d == 0 { lit("k0 p1 k2 p3&lt; k4 p5 k6 p7"); end(b, classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7))) } else { lit("<p class=\"k0 p1 k2 p3&lt; k4 p5 k6 p7\">a b</p>"); end(b, p!(class = classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7)), classes!("a", "b"))) } }
    h_19_w008_2(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); end(b, frag!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)))) } else if d == 0 { lit("p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7"); end(b, classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)))) } else { lit("<p class=\"p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7\">a b</p>"); end(b, p!(class = classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7))), classes!("a", "b"))) } }
    h_19_w009_0(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0p1p2p3&lt;p4p5p6p7p8"); end(b, frag!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8))) } else if d == 0 { lit("p0 p1 p2 p3&lt; p4 p5 p6 p7 p8"); end(b, classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8))) } else { lit("<p class=\"p0 p1 p2 p3&lt; p4 p5 p6 p7 p8\">a b</p>"); end(b, p!(class = classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8)), classes!("a", "b"))) } }
    h_19_w009_1(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("k0p1k2p3&lt;k4p5k6p7k8"); end(b, frag!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8")) } else if d == 0 { lit("k0 p1 k2 p3&lt; k4 p5 k6 p7 k8"); end(b, classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8")) } else { lit("<p class=\"k0 p1 k2 p3&lt; k4 p5 k6 p7 k8\">a b</p>"); end(b, p!(class = classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8"), classes!("a", "b"))) } }
    h_19_w009_2(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); end(b, frag!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x })) } else if d == 0 { lit("p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); end(b, classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x })) } else { lit("<p class=\"p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit("\">a b</p>"); end(b, p!(class = classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }), classes!("a", "b"))) } }
    h_19_w010_0(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0p1p2p3&lt;p4p5p6p7p8p9"); end(b, frag!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9))) } else if d == 0 { lit("p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9"); end(b, classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9))) } else { lit("<p class=\"p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9\">a b</p>"); end(b, p!(class = classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9)), classes!("a", "b"))) } }
    h_19_w010_1(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("k0p1k2p3&lt;k4p5k6p7k8p9"); end(b, frag!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9))) } else if d == 0 { lit("k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9"); end(b, classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9))) } else { lit("<p class=\"k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9\">a b</p>"); end(b, p!(class = classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9)), classes!("a", "b"))) } }
    h_19_w010_2(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99"); end(b, frag!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9))) } else if d == 0 { lit("p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99"); end(b, classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9))) } else { lit("<p class=\"p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99\">a b</p>"); end(b, p!(class = classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9)), classes!("a", "b"))) } }
    h_19_w012_0(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0p1p2p3&lt;p4p5p6p7p8p9p10p11"); end(b, frag!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11))) } else if d == 0 { lit("p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11"); end(b, classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11))) } else { lit("<p class=\"p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11\">a b</p>"); end(b, p!(class = classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11)), classes!("a", "b"))) } }
    h_19_w012_1(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("k0p1k2p3&lt;k4p5k6p7k8p9k10p11"); end(b, frag!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11))) } else if d == 0 { lit("k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11"); end(b, classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11))) } else { lit("<p class=\"k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11\">a b</p>"); end(b, p!(class = classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11)), classes!("a", "b"))) } }
    h_19_w012_2(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11"); end(b, frag!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11))) } else if d == 0 { lit("p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11"); end(b, classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11))) } else { lit("<p class=\"p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11\">a b</p>"); end(b, p!(class = classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11)), classes!("a", "b"))) } }
    h_19_w013_0(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12"); end(b, frag!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12))) } else if d == 0 { lit("p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12"); end(b, classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12))) } else { lit("<p class=\"p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12\">a b</p>"); end(b, p!(class = classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12)), classes!("a", "b"))) } }
    h_19_w013_1(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12"); end(b, frag!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12")) } else if d == 0 { lit("k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12"); end(b, classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12")) } else { lit("<p class=\"k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12\">a b</p>"); end(b, p!(class = classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12"), classes!("a", "b"))) } }
    h_19_w013_2(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;"); end(b, frag!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&")) } else if d == 0 { lit("p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp;"); end(b, classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&")) } else { lit("<p class=\"p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp;\">a b</p>"); end(b, p!(class = classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&"), classes!("a", "b"))) } }
    h_19_w016_0(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15"); end(b, frag!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15))) } else if d == 0 { lit("p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15"); end(b, classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15))) } else { lit("<p class=\"p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15\">a b</p>"); end(b, p!(class = classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15)), classes!("a", "b"))) } }
    h_19_w016_1(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15"); end(b, frag!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15))) } else if d == 0 { lit("k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15"); end(b, classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15))) } else { lit("<p class=\"k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15\">a b</p>"); end(b, p!(class = classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15)), classes!("a", "b"))) } }
    h_19_w016_2(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415"); end(b, frag!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15))) } else if d == 0 { lit("p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15"); end(b, classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15))) } else { lit("<p class=\"p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15\">a b</p>"); end(b, p!(class = classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15)), classes!("a", "b"))) } }
    h_19_w017_0(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16"); end(b, frag!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16))) } else if d == 0 { lit("p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16"); end(b, classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16))) } else { lit("<p class=\"p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16\">a b</p>"); end(b, p!(class = classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16)), classes!("a", "b"))) } }
    h_19_w017_1(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16"); end(b, frag!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16")) } else if d == 0 { lit("k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16"); end(b, classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16")) } else { lit("<p class=\"k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16\">a b</p>"); end(b, p!(class = classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16"), classes!("a", "b"))) } }
    h_19_w017_2(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i>"); end(b, frag!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"))) } else if d == 0 { lit("p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i>"); end(b, classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"))) } else { lit("<p class=\"p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i>\">a b</p>"); end(b, p!(class = classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z")), classes!("a", "b"))) } }
    h_19_w026_0(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25"); end(b, frag!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25))) } else if d == 0 { lit("p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25"); end(b, classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25))) } else { lit("<p class=\"p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25\">a b</p>"); end(b, p!(class = classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25)), classes!("a", "b"))) } }
    h_19_w026_1(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25"); end(b, frag!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25))) } else if d == 0 { lit("k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25"); end(b, classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25))) } else { lit("<p class=\"k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25\">a b</p>"); end(b, p!(class = classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25)), classes!("a", "b"))) } }
    h_19_w026_2(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>25"); end(b, frag!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25)) } else if d == 0 { lit("p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25"); end(b, classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25)) } else { lit("<p class=\"p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25\">a b</p>"); end(b, p!(class = classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25), classes!("a", "b"))) } }
    h_19_w027_0(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26"); end(b, frag!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26))) } else if d == 0 { lit("p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25 p26"); end(b, classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26))) } else { lit("<p class=\"p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25 p26\">a b</p>"); end(b, p!(class = classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26)), classes!("a", "b"))) } }
    h_19_w027_1(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26"); end(b, frag!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26")) } else if d == 0 { lit("k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25 k26"); end(b, classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26")) } else { lit("<p class=\"k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25 k26\">a b</p>"); end(b, p!(class = classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26"), classes!("a", "b"))) } }
    h_19_w027_2(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526"); end(b, frag!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26))) } else if d == 0 { lit("p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25 26"); end(b, classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26))) } else { lit("<p class=\"p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25 26\">a b</p>"); end(b, p!(class = classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26)), classes!("a", "b"))) } }
    h_19_w032_0(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27p28p29p30p31"); end(b, frag!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31))) } else if d == 0 { lit("p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25 p26 p27 p28 p29 p30 p31"); end(b, classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31))) } else { lit("<p class=\"p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25 p26 p27 p28 p29 p30 p31\">a b</p>"); end(b, p!(class = classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31)), classes!("a", "b"))) } }
    h_19_w032_1(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26p27k28p29k30p31"); end(b, frag!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31))) } else if d == 0 { lit("k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25 k26 p27 k28 p29 k30 p31"); end(b, classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31))) } else { lit("<p class=\"k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25 k26 p27 k28 p29 k30 p31\">a b</p>"); end(b, p!(class = classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31)), classes!("a", "b"))) } }
    h_19_w032_2(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131"); end(b, frag!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31))) } else if d == 0 { lit("p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25 26 <i id=\"p27\">z</i> <br> p29 "); esc(x); lit(" p3131"); end(b, classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31))) } else { lit("<p class=\"p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25 26 <i id=\"p27\">z</i> <br> p29 "); esc(x); lit(" p3131\">a b</p>"); end(b, p!(class = classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31)), classes!("a", "b"))) } }
    h_19_w033_0(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27p28p29p30p31p32"); end(b, frag!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32))) } else if d == 0 { lit("p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25 p26 p27 p28 p29 p30 p31 p32"); end(b, classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32))) } else { lit("<p class=\"p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25 p26 p27 p28 p29 p30 p31 p32\">a b</p>"); end(b, p!(class = classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32)), classes!("a", "b"))) } }
    h_19_w033_1(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26p27k28p29k30p31k32"); end(b, frag!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32")) } else if d == 0 { lit("k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25 k26 p27 k28 p29 k30 p31 k32"); end(b, classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32")) } else { lit("<p class=\"k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25 k26 p27 k28 p29 k30 p31 k32\">a b</p>"); end(b, p!(class = classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32"), classes!("a", "b"))) } }
    h_19_w033_2(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32"); end(b, frag!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)))) } else if d == 0 { lit("p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25 26 <i id=\"p27\">z</i> <br> p29 "); esc(x); lit(" p3131 p32"); end(b, classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)))) } else { lit("<p class=\"p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25 26 <i id=\"p27\">z</i> <br> p29 "); esc(x); lit(" p3131 p32\">a b</p>"); end(b, p!(class = classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32))), classes!("a", "b"))) } }
    h_19_w050_0(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27p28p29p30p31p32p33p34p35p36p37&lt;p38p39p40p41p42p43p44p45p46p47p48p49"); end(b, frag!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49))) } else if d == 0 { lit("p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25 p26 p27 p28 p29 p30 p31 p32 p33 p34 p35 p36 p37&lt; p38 p39 p40 p41 p42 p43 p44 p45 p46 p47 p48 p49"); end(b, classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49))) } else { lit("<p class=\"p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25 p26 p27 p28 p29 p30 p31 p32 p33 p34 p35 p36 p37&lt; p38 p39 p40 p41 p42 p43 p44 p45 p46 p47 p48 p49\">a b</p>"); end(b, p!(class = classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49)), classes!("a", "b"))) } }
    h_19_w050_1(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26p27k28p29k30p31k32p33k34p35k36p37&lt;k38p39k40p41k42p43k44p45k46p47k48p49"); end(b, frag!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49))) } else if d == 0 { lit("k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25 k26 p27 k28 p29 k30 p31 k32 p33 k34 p35 k36 p37&lt; k38 p39 k40 p41 k42 p43 k44 p45 k46 p47 k48 p49"); end(b, classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49))) } else { lit("<p class=\"k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25 k26 p27 k28 p29 k30 p31 k32 p33 k34 p35 k36 p37&lt; k38 p39 k40 p41 k42 p43 k44 p45 k46 p47 k48 p49\">a b</p>"); end(b, p!(class = classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49)), classes!("a", "b"))) } }
    h_19_w050_2(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32p33k34&amp;<b>p35</b>3637<i id=\"p38\">z</i><br>p40"); esc(x); lit("p4242p43p44k45&amp;<b>p46</b>4748<i id=\"p49\">z</i>"); end(b, frag!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"))) } else if d == 0 { lit("p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25 26 <i id=\"p27\">z</i> <br> p29 "); esc(x); lit(" p3131 p32 p33 k34&amp; <b>p35</b> 36 37 <i id=\"p38\">z</i> <br> p40 "); esc(x); lit(" p4242 p43 p44 k45&amp; <b>p46</b> 47 48 <i id=\"p49\">z</i>"); end(b, classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"))) } else { lit("<p class=\"p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25 26 <i id=\"p27\">z</i> <br> p29 "); esc(x); lit(" p3131 p32 p33 k34&amp; <b>p35</b> 36 37 <i id=\"p38\">z</i> <br> p40 "); esc(x); lit(" p4242 p43 p44 k45&amp; <b>p46</b> 47 48 <i id=\"p49\">z</i>\">a b</p>"); end(b, p!(class = classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z")), classes!("a", "b"))) } }
    h_19_w064_0(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27p28p29p30p31p32p33p34p35p36p37&lt;p38p39p40p41p42p43p44p45p46p47p48p49p50p51p52p53p54&lt;p55p56p57p58p59p60p61p62p63"); end(b, frag!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49), s(50), s(51), s(52), s(53), s(54), s(55), s(56), s(57), s(58), s(59), s(60), s(61), s(62), s(63))) } else if d == 0 { lit("p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25 p26 p27 p28 p29 p30 p31 p32 p33 p34 p35 p36 p37&lt; p38 p39 p40 p41 p42 p43 p44 p45 p46 p47 p48 p49 p50 p51 p52 p53 p54&lt; p55 p56 p57 p58 p59 p60 p61 p62 p63"); end(b, classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49), s(50), s(51), s(52), s(53), s(54), s(55), s(56), s(57), s(58), s(59), s(60), s(61), s(62), s(63))) } else { lit("<p class=\"p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25 p26 p27 p28 p29 p30 p31 p32 p33 p34 p35 p36 p37&lt; p38 p39 p40 p41 p42 p43 p44 p45 p46 p47 p48 p49 p50 p51 p52 p53 p54&lt; p55 p56 p57 p58 p59 p60 p61 p62 p63\">a b</p>"); end(b, p!(class = classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49), s(50), s(51), s(52), s(53), s(54), s(55), s(56), s(57), s(58), s(59), s(60), s(61), s(62), s(63)), classes!("a", "b"))) } }
    h_19_w064_1(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26p27k28p29k30p31k32p33k34p35k36p37&lt;k38p39k40p41k42p43k44p45k46p47k48p49k50p51k52p53k54p55k56p57k58p59k60p61k62p63"); end(b, frag!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49), "k50", s(51), "k52", s(53), "k54", s(55), "k56", s(57), "k58", s(59), "k60", s(61), "k62", s(63))) } else if d == 0 { lit("k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25 k26 p27 k28 p29 k30 p31 k32 p33 k34 p35 k36 p37&lt; k38 p39 k40 p41 k42 p43 k44 p45 k46 p47 k48 p49 k50 p51 k52 p53 k54 p55 k56 p57 k58 p59 k60 p61 k62 p63"); end(b, classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49), "k50", s(51), "k52", s(53), "k54", s(55), "k56", s(57), "k58", s(59), "k60", s(61), "k62", s(63))) } else { lit("<p class=\"k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25 k26 p27 k28 p29 k30 p31 k32 p33 k34 p35 k36 p37&lt; k38 p39 k40 p41 k42 p43 k44 p45 k46 p47 k48 p49 k50 p51 k52 p53 k54 p55 k56 p57 k58 p59 k60 p61 k62 p63\">a b</p>"); end(b, p!(class = classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49), "k50", s(51), "k52", s(53), "k54", s(55), "k56", s(57), "k58", s(59), "k60", s(61), "k62", s(63)), classes!("a", "b"))) } }
    h_19_w064_2(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32p33k34&amp;<b>p35</b>3637<i id=\"p38\">z</i><br>p40"); esc(x); lit("p4242p43p44k45&amp;<b>p46</b>4748<i id=\"p49\">z</i><br>p51"); esc(x); lit("p5353p54<p55k56&amp;<b>p57</b>5859<i id=\"p60\">z</i><br>p62"); esc(x); end(b, frag!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x })) } else if d == 0 { lit("p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25 26 <i id=\"p27\">z</i> <br> p29 "); esc(x); lit(" p3131 p32 p33 k34&amp; <b>p35</b> 36 37 <i id=\"p38\">z</i> <br> p40 "); esc(x); lit(" p4242 p43 p44 k45&amp; <b>p46</b> 47 48 <i id=\"p49\">z</i> <br> p51 "); esc(x); lit(" p5353 p54< p55 k56&amp; <b>p57</b> 58 59 <i id=\"p60\">z</i> <br> p62 "); esc(x); end(b, classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x })) } else { lit("<p class=\"p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25 26 <i id=\"p27\">z</i> <br> p29 "); esc(x); lit(" p3131 p32 p33 k34&amp; <b>p35</b> 36 37 <i id=\"p38\">z</i> <br> p40 "); esc(x); lit(" p4242 p43 p44 k45&amp; <b>p46</b> 47 48 <i id=\"p49\">z</i> <br> p51 "); esc(x); lit(" p5353 p54< p55 k56&amp; <b>p57</b> 58 59 <i id=\"p60\">z</i> <br> p62 "); esc(x); lit("\">a b</p>"); end(b, p!(class = classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }), classes!("a", "b"))) } }
    h_19_w065_0(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27p28p29p30p31p32p33p34p35p36p37&lt;p38p39p40p41p42p43p44p45p46p47p48p49p50p51p52p53p54&lt;p55p56p57p58p59p60p61p62p63p64"); end(b, frag!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49), s(50), s(51), s(52), s(53), s(54), s(55), s(56), s(57), s(58), s(59), s(60), s(61), s(62), s(63), s(64))) } else if d == 0 { lit("p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25 p26 p27 p28 p29 p30 p31 p32 p33 p34 p35 p36 p37&lt; p38 p39 p40 p41 p42 p43 p44 p45 p46 p47 p48 p49 p50 p51 p52 p53 p54&lt; p55 p56 p57 p58 p59 p60 p61 p62 p63 p64"); end(b, classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49), s(50), s(51), s(52), s(53), s(54), s(55), s(56), s(57), s(58), s(59), s(60), s(61), s(62), s(63), s(64))) } else { lit("<p class=\"p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25 p26 p27 p28 p29 p30 p31 p32 p33 p34 p35 p36 p37&lt; p38 p39 p40 p41 p42 p43 p44 p45 p46 p47 p48 p49 p50 p51 p52 p53 p54&lt; p55 p56 p57 p58 p59 p60 p61 p62 p63 p64\">a b</p>"); end(b, p!(class = classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49), s(50), s(51), s(52), s(53), s(54), s(55), s(56), s(57), s(58), s(59), s(60), s(61), s(62), s(63), s(64)), classes!("a", "b"))) } }
    h_19_w065_1(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26p27k28p29k30p31k32p33k34p35k36p37&lt;k38p39k40p41k42p43k44p45k46p47k48p49k50p51k52p53k54p55k56p57k58p59k60p61k62p63k64"); end(b, frag!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49), "k50", s(51), "k52", s(53), "k54", s(55), "k56", s(57), "k58", s(59), "k60", s(61), "k62", s(63), "k64")) } else if d == 0 { lit("k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25 k26 p27 k28 p29 k30 p31 k32 p33 k34 p35 k36 p37&lt; k38 p39 k40 p41 k42 p43 k44 p45 k46 p47 k48 p49 k50 p51 k52 p53 k54 p55 k56 p57 k58 p59 k60 p61 k62 p63 k64"); end(b, classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49), "k50", s(51), "k52", s(53), "k54", s(55), "k56", s(57), "k58", s(59), "k60", s(61), "k62", s(63), "k64")) } else { lit("<p class=\"k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25 k26 p27 k28 p29 k30 p31 k32 p33 k34 p35 k36 p37&lt; k38 p39 k40 p41 k42 p43 k44 p45 k46 p47 k48 p49 k50 p51 k52 p53 k54 p55 k56 p57 k58 p59 k60 p61 k62 p63 k64\">a b</p>"); end(b, p!(class = classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49), "k50", s(51), "k52", s(53), "k54", s(55), "k56", s(57), "k58", s(59), "k60", s(61), "k62", s(63), "k64"), classes!("a", "b"))) } }
    h_19_w065_2(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32p33k34&amp;<b>p35</b>3637<i id=\"p38\">z</i><br>p40"); esc(x); lit("p4242p43p44k45&amp;<b>p46</b>4748<i id=\"p49\">z</i><br>p51"); esc(x); lit("p5353p54<p55k56&amp;<b>p57</b>5859<i id=\"p60\">z</i><br>p62"); esc(x); lit("p6464"); end(b, frag!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }, frag!(s(64), 64))) } else if d == 0 { lit("p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25 26 <i id=\"p27\">z</i> <br> p29 "); esc(x); lit(" p3131 p32 p33 k34&amp; <b>p35</b> 36 37 <i id=\"p38\">z</i> <br> p40 "); esc(x); lit(" p4242 p43 p44 k45&amp; <b>p46</b> 47 48 <i id=\"p49\">z</i> <br> p51 "); esc(x); lit(" p5353 p54< p55 k56&amp; <b>p57</b> 58 59 <i id=\"p60\">z</i> <br> p62 "); esc(x); lit(" p6464"); end(b, classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }, frag!(s(64), 64))) } else { lit("<p class=\"p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25 26 <i id=\"p27\">z</i> <br> p29 "); esc(x); lit(" p3131 p32 p33 k34&amp; <b>p35</b> 36 37 <i id=\"p38\">z</i> <br> p40 "); esc(x); lit(" p4242 p43 p44 k45&amp; <b>p46</b> 47 48 <i id=\"p49\">z</i> <br> p51 "); esc(x); lit(" p5353 p54< p55 k56&amp; <b>p57</b> 58 59 <i id=\"p60\">z</i> <br> p62 "); esc(x); lit(" p6464\">a b</p>"); end(b, p!(class = classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }, frag!(s(64), 64)), classes!("a", "b"))) } }
    h_19_w100_0(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27p28p29p30p31p32p33p34p35p36p37&lt;p38p39p40p41p42p43p44p45p46p47p48p49p50p51p52p53p54&lt;p55p56p57p58p59p60p61p62p63p64p65p66p67p68p69p70p71&lt;p72p73p74p75p76p77p78p79p80p81p82p83p84p85p86p87p88&lt;p89p90p91p92p93p94p95p96p97p98p99"); end(b, frag!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49), s(50), s(51), s(52), s(53), s(54), s(55), s(56), s(57), s(58), s(59), s(60), s(61), s(62), s(63), s(64), s(65), s(66), s(67), s(68), s(69), s(70), s(71), s(72), s(73), s(74), s(75), s(76), s(77), s(78), s(79), s(80), s(81), s(82), s(83), s(84), s(85), s(86), s(87), s(88), s(89), s(90), s(91), s(92), s(93), s(94), s(95), s(96), s(97), s(98), s(99))) } else if d == 0 { lit("p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25 p26 p27 p28 p29 p30 p31 p32 p33 p34 p35 p36 p37&lt; p38 p39 p40 p41 p42 p43 p44 p45 p46 p47 p48 p49 p50 p51 p52 p53 p54&lt; p55 p56 p57 p58 p59 p60 p61 p62 p63 p64 p65 p66 p67 p68 p69 p70 p71&lt; p72 p73 p74 p75 p76 p77 p78 p79 p80 p81 p82 p83 p84 p85 p86 p87 p88&lt; p89 p90 p91 p92 p93 p94 p95 p96 p97 p98 p99"); end(b, classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49), s(50), s(51), s(52), s(53), s(54), s(55), s(56), s(57), s(58), s(59), s(60), s(61), s(62), s(63), s(64), s(65), s(66), s(67), s(68), s(69), s(70), s(71), s(72), s(73), s(74), s(75), s(76), s(77), s(78), s(79), s(80), s(81), s(82), s(83), s(84), s(85), s(86), s(87), s(88), s(89), s(90), s(91), s(92), s(93), s(94), s(95), s(96), s(97), s(98), s(99))) } else { lit("<p class=\"p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25 p26 p27 p28 p29 p30 p31 p32 p33 p34 p35 p36 p37&lt; p38 p39 p40 p41 p42 p43 p44 p45 p46 p47 p48 p49 p50 p51 p52 p53 p54&lt; p55 p56 p57 p58 p59 p60 p61 p62 p63 p64 p65 p66 p67 p68 p69 p70 p71&lt; p72 p73 p74 p75 p76 p77 p78 p79 p80 p81 p82 p83 p84 p85 p86 p87 p88&lt; p89 p90 p91 p92 p93 p94 p95 p96 p97 p98 p99\">a b</p>"); end(b, p!(class = classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49), s(50), s(51), s(52), s(53), s(54), s(55), s(56), s(57), s(58), s(59), s(60), s(61), s(62), s(63), s(64), s(65), s(66), s(67), s(68), s(69), s(70), s(71), s(72), s(73), s(74), s(75), s(76), s(77), s(78), s(79), s(80), s(81), s(82), s(83), s(84), s(85), s(86), s(87), s(88), s(89), s(90), s(91), s(92), s(93), s(94), s(95), s(96), s(97), s(98), s(99)), classes!("a", "b"))) } }
    h_19_w100_1(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26p27k28p29k30p31k32p33k34p35k36p37&lt;k38p39k40p41k42p43k44p45k46p47k48p49k50p51k52p53k54p55k56p57k58p59k60p61k62p63k64p65k66p67k68p69k70p71&lt;k72p73k74p75k76p77k78p79k80p81k82p83k84p85k86p87k88p89k90p91k92p93k94p95k96p97k98p99"); end(b, frag!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49), "k50", s(51), "k52", s(53), "k54", s(55), "k56", s(57), "k58", s(59), "k60", s(61), "k62", s(63), "k64", s(65), "k66", s(67), "k68", s(69), "k70", s(71), "k72", s(73), "k74", s(75), "k76", s(77), "k78", s(79), "k80", s(81), "k82", s(83), "k84", s(85), "k86", s(87), "k88", s(89), "k90", s(91), "k92", s(93), "k94", s(95), "k96", s(97), "k98", s(99))) } else if d == 0 { lit("k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25 k26 p27 k28 p29 k30 p31 k32 p33 k34 p35 k36 p37&lt; k38 p39 k40 p41 k42 p43 k44 p45 k46 p47 k48 p49 k50 p51 k52 p53 k54 p55 k56 p57 k58 p59 k60 p61 k62 p63 k64 p65 k66 p67 k68 p69 k70 p71&lt; k72 p73 k74 p75 k76 p77 k78 p79 k80 p81 k82 p83 k84 p85 k86 p87 k88 p89 k90 p91 k92 p93 k94 p95 k96 p97 k98 p99"); end(b, classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49), "k50", s(51), "k52", s(53), "k54", s(55), "k56", s(57), "k58", s(59), "k60", s(61), "k62", s(63), "k64", s(65), "k66", s(67), "k68", s(69), "k70", s(71), "k72", s(73), "k74", s(75), "k76", s(77), "k78", s(79), "k80", s(81), "k82", s(83), "k84", s(85), "k86", s(87), "k88", s(89), "k90", s(91), "k92", s(93), "k94", s(95), "k96", s(97), "k98", s(99))) } else { lit("<p class=\"k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25 k26 p27 k28 p29 k30 p31 k32 p33 k34 p35 k36 p37&lt; k38 p39 k40 p41 k42 p43 k44 p45 k46 p47 k48 p49 k50 p51 k52 p53 k54 p55 k56 p57 k58 p59 k60 p61 k62 p63 k64 p65 k66 p67 k68 p69 k70 p71&lt; k72 p73 k74 p75 k76 p77 k78 p79 k80 p81 k82 p83 k84 p85 k86 p87 k88 p89 k90 p91 k92 p93 k94 p95 k96 p97 k98 p99\">a b</p>"); end(b, p!(class = classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49), "k50", s(51), "k52", s(53), "k54", s(55), "k56", s(57), "k58", s(59), "k60", s(61), "k62", s(63), "k64", s(65), "k66", s(67), "k68", s(69), "k70", s(71), "k72", s(73), "k74", s(75), "k76", s(77), "k78", s(79), "k80", s(81), "k82", s(83), "k84", s(85), "k86", s(87), "k88", s(89), "k90", s(91), "k92", s(93), "k94", s(95), "k96", s(97), "k98", s(99)), classes!("a", "b"))) } }
    h_19_w100_2(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32p33k34&amp;<b>p35</b>3637<i id=\"p38\">z</i><br>p40"); esc(x); lit("p4242p43p44k45&amp;<b>p46</b>4748<i id=\"p49\">z</i><br>p51"); esc(x); lit("p5353p54<p55k56&amp;<b>p57</b>5859<i id=\"p60\">z</i><br>p62"); esc(x); lit("p6464p65p66k67&amp;<b>p68</b>6970<i id=\"p71&lt;\">z</i><br>p73"); esc(x); lit("p7575p76p77k78&amp;<b>p79</b>8081<i id=\"p82\">z</i><br>p84"); esc(x); lit("p8686p87p88&lt;k89&amp;<b>p90</b>9192<i id=\"p93\">z</i><br>p95"); esc(x); lit("p9797p98p99"); end(b, frag!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }, frag!(s(64), 64), raw!(s(65)), s(66), "k67&", b!(s(68)), 69, idf(70), i!(id = s(71), "z"), br!(), Some(s(73)), { x }, frag!(s(75), 75), raw!(s(76)), s(77), "k78&", b!(s(79)), 80, idf(81), i!(id = s(82), "z"), br!(), Some(s(84)), { x }, frag!(s(86), 86), raw!(s(87)), s(88), "k89&", b!(s(90)), 91, idf(92), i!(id = s(93), "z"), br!(), Some(s(95)), { x }, frag!(s(97), 97), raw!(s(98)), s(99))) } else if d == 0 { lit("p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25 26 <i id=\"p27\">z</i> <br> p29 "); esc(x); lit(" p3131 p32 p33 k34&amp; <b>p35</b> 36 37 <i id=\"p38\">z</i> <br> p40 "); esc(x); lit(" p4242 p43 p44 k45&amp; <b>p46</b> 47 48 <i id=\"p49\">z</i> <br> p51 "); esc(x); lit(" p5353 p54< p55 k56&amp; <b>p57</b> 58 59 <i id=\"p60\">z</i> <br> p62 "); esc(x); lit(" p6464 p65 p66 k67&amp; <b>p68</b> 69 70 <i id=\"p71&lt;\">z</i> <br> p73 "); esc(x); lit(" p7575 p76 p77 k78&amp; <b>p79</b> 80 81 <i id=\"p82\">z</i> <br> p84 "); esc(x); lit(" p8686 p87 p88&lt; k89&amp; <b>p90</b> 91 92 <i id=\"p93\">z</i> <br> p95 "); esc(x); lit(" p9797 p98 p99"); end(b, classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }, frag!(s(64), 64), raw!(s(65)), s(66), "k67&", b!(s(68)), 69, idf(70), i!(id = s(71), "z"), br!(), Some(s(73)), { x }, frag!(s(75), 75), raw!(s(76)), s(77), "k78&", b!(s(79)), 80, idf(81), i!(id = s(82), "z"), br!(), Some(s(84)), { x }, frag!(s(86), 86), raw!(s(87)), s(88), "k89&", b!(s(90)), 91, idf(92), i!(id = s(93), "z"), br!(), Some(s(95)), { x }, frag!(s(97), 97), raw!(s(98)), s(99))) } else { lit("<p class=\"p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25 26 <i id=\"p27\">z</i> <br> p29 "); esc(x); lit(" p3131 p32 p33 k34&amp; <b>p35</b> 36 37 <i id=\"p38\">z</i> <br> p40 "); esc(x); lit(" p4242 p43 p44 k45&amp; <b>p46</b> 47 48 <i id=\"p49\">z</i> <br> p51 "); esc(x); lit(" p5353 p54< p55 k56&amp; <b>p57</b> 58 59 <i id=\"p60\">z</i> <br> p62 "); esc(x); lit(" p6464 p65 p66 k67&amp; <b>p68</b> 69 70 <i id=\"p71&lt;\">z</i> <br> p73 "); esc(x); lit(" p7575 p76 p77 k78&amp; <b>p79</b> 80 81 <i id=\"p82\">z</i> <br> p84 "); esc(x); lit(" p8686 p87 p88&lt; k89&amp; <b>p90</b> 91 92 <i id=\"p93\">z</i> <br> p95 "); esc(x); lit(" p9797 p98 p99\">a b</p>"); end(b, p!(class = classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }, frag!(s(64), 64), raw!(s(65)), s(66), "k67&", b!(s(68)), 69, idf(70), i!(id = s(71), "z"), br!(), Some(s(73)), { x }, frag!(s(75), 75), raw!(s(76)), s(77), "k78&", b!(s(79)), 80, idf(81), i!(id = s(82), "z"), br!(), Some(s(84)), { x }, frag!(s(86), 86), raw!(s(87)), s(88), "k89&", b!(s(90)), 91, idf(92), i!(id = s(93), "z"), br!(), Some(s(95)), { x }, frag!(s(97), 97), raw!(s(98)), s(99)), classes!("a", "b"))) } }
    h_19_w129_0(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27p28p29p30p31p32p33p34p35p36p37&lt;p38p39p40p41p42p43p44p45p46p47p48p49p50p51p52p53p54&lt;p55p56p57p58p59p60p61p62p63p64p65p66p67p68p69p70p71&lt;p72p73p74p75p76p77p78p79p80p81p82p83p84p85p86p87p88&lt;p89p90p91p92p93p94p95p96p97p98p99p100p101p102p103p104p105&lt;p106p107p108p109p110p111p112p113p114p115p116p117p118p119p120p121p122&lt;p123p124p125p126p127p128"); end(b, frag!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49), s(50), s(51), s(52), s(53), s(54), s(55), s(56), s(57), s(58), s(59), s(60), s(61), s(62), s(63), s(64), s(65), s(66), s(67), s(68), s(69), s(70), s(71), s(72), s(73), s(74), s(75), s(76), s(77), s(78), s(79), s(80), s(81), s(82), s(83), s(84), s(85), s(86), s(87), s(88), s(89), s(90), s(91), s(92), s(93), s(94), s(95), s(96), s(97), s(98), s(99), s(100), s(101), s(102), s(103), s(104), s(105), s(106), s(107), s(108), s(109), s(110), s(111), s(112), s(113), s(114), s(115), s(116), s(117), s(118), s(119), s(120), s(121), s(122), s(123), s(124), s(125), s(126), s(127), s(128))) } else if d == 0 { lit("p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25 p26 p27 p28 p29 p30 p31 p32 p33 p34 p35 p36 p37&lt; p38 p39 p40 p41 p42 p43 p44 p45 p46 p47 p48 p49 p50 p51 p52 p53 p54&lt; p55 p56 p57 p58 p59 p60 p61 p62 p63 p64 p65 p66 p67 p68 p69 p70 p71&lt; p72 p73 p74 p75 p76 p77 p78 p79 p80 p81 p82 p83 p84 p85 p86 p87 p88&lt; p89 p90 p91 p92 p93 p94 p95 p96 p97 p98 p99 p100 p101 p102 p103 p104 p105&lt; p106 p107 p108 p109 p110 p111 p112 p113 p114 p115 p116 p117 p118 p119 p120 p121 p122&lt; p123 p124 p125 p126 p127 p128"); end(b, classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49), s(50), s(51), s(52), s(53), s(54), s(55), s(56), s(57), s(58), s(59), s(60), s(61), s(62), s(63), s(64), s(65), s(66), s(67), s(68), s(69), s(70), s(71), s(72), s(73), s(74), s(75), s(76), s(77), s(78), s(79), s(80), s(81), s(82), s(83), s(84), s(85), s(86), s(87), s(88), s(89), s(90), s(91), s(92), s(93), s(94), s(95), s(96), s(97), s(98), s(99), s(100), s(101), s(102), s(103), s(104), s(105), s(106), s(107), s(108), s(109), s(110), s(111), s(112), s(113), s(114), s(115), s(116), s(117), s(118), s(119), s(120), s(121), s(122), s(123), s(124), s(125), s(126), s(127), s(128))) } else { lit("<p class=\"p0 p1 p2 p3&lt; p4 p5 p6 p7 p8 p9 p10 p11 p12 p13 p14 p15 p16 p17 p18 p19 p20&lt; p21 p22 p23 p24 p25 p26 p27 p28 p29 p30 p31 p32 p33 p34 p35 p36 p37&lt; p38 p39 p40 p41 p42 p43 p44 p45 p46 p47 p48 p49 p50 p51 p52 p53 p54&lt; p55 p56 p57 p58 p59 p60 p61 p62 p63 p64 p65 p66 p67 p68 p69 p70 p71&lt; p72 p73 p74 p75 p76 p77 p78 p79 p80 p81 p82 p83 p84 p85 p86 p87 p88&lt; p89 p90 p91 p92 p93 p94 p95 p96 p97 p98 p99 p100 p101 p102 p103 p104 p105&lt; p106 p107 p108 p109 p110 p111 p112 p113 p114 p115 p116 p117 p118 p119 p120 p121 p122&lt; p123 p124 p125 p126 p127 p128\">a b</p>"); end(b, p!(class = classes!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49), s(50), s(51), s(52), s(53), s(54), s(55), s(56), s(57), s(58), s(59), s(60), s(61), s(62), s(63), s(64), s(65), s(66), s(67), s(68), s(69), s(70), s(71), s(72), s(73), s(74), s(75), s(76), s(77), s(78), s(79), s(80), s(81), s(82), s(83), s(84), s(85), s(86), s(87), s(88), s(89), s(90), s(91), s(92), s(93), s(94), s(95), s(96), s(97), s(98), s(99), s(100), s(101), s(102), s(103), s(104), s(105), s(106), s(107), s(108), s(109), s(110), s(111), s(112), s(113), s(114), s(115), s(116), s(117), s(118), s(119), s(120), s(121), s(122), s(123), s(124), s(125), s(126), s(127), s(128)), classes!("a", "b"))) } }
    h_19_w129_1(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26p27k28p29k30p31k32p33k34p35k36p37&lt;k38p39k40p41k42p43k44p45k46p47k48p49k50p51k52p53k54p55k56p57k58p59k60p61k62p63k64p65k66p67k68p69k70p71&lt;k72p73k74p75k76p77k78p79k80p81k82p83k84p85k86p87k88p89k90p91k92p93k94p95k96p97k98p99k100p101k102p103k104p105&lt;k106p107k108p109k110p111k112p113k114p115k116p117k118p119k120p121k122p123k124p125k126p127k128"); end(b, frag!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49), "k50", s(51), "k52", s(53), "k54", s(55), "k56", s(57), "k58", s(59), "k60", s(61), "k62", s(63), "k64", s(65), "k66", s(67), "k68", s(69), "k70", s(71), "k72", s(73), "k74", s(75), "k76", s(77), "k78", s(79), "k80", s(81), "k82", s(83), "k84", s(85), "k86", s(87), "k88", s(89), "k90", s(91), "k92", s(93), "k94", s(95), "k96", s(97), "k98", s(99), "k100", s(101), "k102", s(103), "k104", s(105), "k106", s(107), "k108", s(109), "k110", s(111), "k112", s(113), "k114", s(115), "k116", s(117), "k118", s(119), "k120", s(121), "k122", s(123), "k124", s(125), "k126", s(127), "k128")) } else if d == 0 { lit("k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25 k26 p27 k28 p29 k30 p31 k32 p33 k34 p35 k36 p37&lt; k38 p39 k40 p41 k42 p43 k44 p45 k46 p47 k48 p49 k50 p51 k52 p53 k54 p55 k56 p57 k58 p59 k60 p61 k62 p63 k64 p65 k66 p67 k68 p69 k70 p71&lt; k72 p73 k74 p75 k76 p77 k78 p79 k80 p81 k82 p83 k84 p85 k86 p87 k88 p89 k90 p91 k92 p93 k94 p95 k96 p97 k98 p99 k100 p101 k102 p103 k104 p105&lt; k106 p107 k108 p109 k110 p111 k112 p113 k114 p115 k116 p117 k118 p119 k120 p121 k122 p123 k124 p125 k126 p127 k128"); end(b, classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49), "k50", s(51), "k52", s(53), "k54", s(55), "k56", s(57), "k58", s(59), "k60", s(61), "k62", s(63), "k64", s(65), "k66", s(67), "k68", s(69), "k70", s(71), "k72", s(73), "k74", s(75), "k76", s(77), "k78", s(79), "k80", s(81), "k82", s(83), "k84", s(85), "k86", s(87), "k88", s(89), "k90", s(91), "k92", s(93), "k94", s(95), "k96", s(97), "k98", s(99), "k100", s(101), "k102", s(103), "k104", s(105), "k106", s(107), "k108", s(109), "k110", s(111), "k112", s(113), "k114", s(115), "k116", s(117), "k118", s(119), "k120", s(121), "k122", s(123), "k124", s(125), "k126", s(127), "k128")) } else { lit("<p class=\"k0 p1 k2 p3&lt; k4 p5 k6 p7 k8 p9 k10 p11 k12 p13 k14 p15 k16 p17 k18 p19 k20 p21 k22 p23 k24 p25 k26 p27 k28 p29 k30 p31 k32 p33 k34 p35 k36 p37&lt; k38 p39 k40 p41 k42 p43 k44 p45 k46 p47 k48 p49 k50 p51 k52 p53 k54 p55 k56 p57 k58 p59 k60 p61 k62 p63 k64 p65 k66 p67 k68 p69 k70 p71&lt; k72 p73 k74 p75 k76 p77 k78 p79 k80 p81 k82 p83 k84 p85 k86 p87 k88 p89 k90 p91 k92 p93 k94 p95 k96 p97 k98 p99 k100 p101 k102 p103 k104 p105&lt; k106 p107 k108 p109 k110 p111 k112 p113 k114 p115 k116 p117 k118 p119 k120 p121 k122 p123 k124 p125 k126 p127 k128\">a b</p>"); end(b, p!(class = classes!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49), "k50", s(51), "k52", s(53), "k54", s(55), "k56", s(57), "k58", s(59), "k60", s(61), "k62", s(63), "k64", s(65), "k66", s(67), "k68", s(69), "k70", s(71), "k72", s(73), "k74", s(75), "k76", s(77), "k78", s(79), "k80", s(81), "k82", s(83), "k84", s(85), "k86", s(87), "k88", s(89), "k90", s(91), "k92", s(93), "k94", s(95), "k96", s(97), "k98", s(99), "k100", s(101), "k102", s(103), "k104", s(105), "k106", s(107), "k108", s(109), "k110", s(111), "k112", s(113), "k114", s(115), "k116", s(117), "k118", s(119), "k120", s(121), "k122", s(123), "k124", s(125), "k126", s(127), "k128"), classes!("a", "b"))) } }
    h_19_w129_2(b) { let x = t(1); let v = u8_(); let k = bool_(); let d = b.len(); if k { lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32p33k34&amp;<b>p35</b>3637<i id=\"p38\">z</i><br>p40"); esc(x); lit("p4242p43p44k45&amp;<b>p46</b>4748<i id=\"p49\">z</i><br>p51"); esc(x); lit("p5353p54<p55k56&amp;<b>p57</b>5859<i id=\"p60\">z</i><br>p62"); esc(x); lit("p6464p65p66k67&amp;<b>p68</b>6970<i id=\"p71&lt;\">z</i><br>p73"); esc(x); lit("p7575p76p77k78&amp;<b>p79</b>8081<i id=\"p82\">z</i><br>p84"); esc(x); lit("p8686p87p88&lt;k89&amp;<b>p90</b>9192<i id=\"p93\">z</i><br>p95"); esc(x); lit("p9797p98p99k100&amp;<b>p101</b>102103<i id=\"p104\">z</i><br>p106"); esc(x); lit("p108108p109p110k111&amp;<b>p112</b>113114<i id=\"p115\">z</i><br>p117"); esc(x); lit("p119119p120p121k122&amp;<b>p123</b>124125<i id=\"p126\">z</i><br>p128"); end(b, frag!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }, frag!(s(64), 64), raw!(s(65)), s(66), "k67&", b!(s(68)), 69, idf(70), i!(id = s(71), "z"), br!(), Some(s(73)), { x }, frag!(s(75), 75), raw!(s(76)), s(77), "k78&", b!(s(79)), 80, idf(81), i!(id = s(82), "z"), br!(), Some(s(84)), { x }, frag!(s(86), 86), raw!(s(87)), s(88), "k89&", b!(s(90)), 91, idf(92), i!(id = s(93), "z"), br!(), Some(s(95)), { x }, frag!(s(97), 97), raw!(s(98)), s(99), "k100&", b!(s(101)), 102, idf(103), i!(id = s(104), "z"), br!(), Some(s(106)), { x }, frag!(s(108), 108), raw!(s(109)), s(110), "k111&", b!(s(112)), 113, idf(114), i!(id = s(115), "z"), br!(), Some(s(117)), { x }, frag!(s(119), 119), raw!(s(120)), s(121), "k122&", b!(s(123)), 124, idf(125), i!(id = s(126), "z"), br!(), Some(s(128)))) } else if d == 0 { lit("p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25 26 <i id=\"p27\">z</i> <br> p29 "); esc(x); lit(" p3131 p32 p33 k34&amp; <b>p35</b> 36 37 <i id=\"p38\">z</i> <br> p40 "); esc(x); lit(" p4242 p43 p44 k45&amp; <b>p46</b> 47 48 <i id=\"p49\">z</i> <br> p51 "); esc(x); lit(" p5353 p54< p55 k56&amp; <b>p57</b> 58 59 <i id=\"p60\">z</i> <br> p62 "); esc(x); lit(" p6464 p65 p66 k67&amp; <b>p68</b> 69 70 <i id=\"p71&lt;\">z</i> <br> p73 "); esc(x); lit(" p7575 p76 p77 k78&amp; <b>p79</b> 80 81 <i id=\"p82\">z</i> <br> p84 "); esc(x); lit(" p8686 p87 p88&lt; k89&amp; <b>p90</b> 91 92 <i id=\"p93\">z</i> <br> p95 "); esc(x); lit(" p9797 p98 p99 k100&amp; <b>p101</b> 102 103 <i id=\"p104\">z</i> <br> p106 "); esc(x); lit(" p108108 p109 p110 k111&amp; <b>p112</b> 113 114 <i id=\"p115\">z</i> <br> p117 "); esc(x); lit(" p119119 p120 p121 k122&amp; <b>p123</b> 124 125 <i id=\"p126\">z</i> <br> p128"); end(b, classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }, frag!(s(64), 64), raw!(s(65)), s(66), "k67&", b!(s(68)), 69, idf(70), i!(id = s(71), "z"), br!(), Some(s(73)), { x }, frag!(s(75), 75), raw!(s(76)), s(77), "k78&", b!(s(79)), 80, idf(81), i!(id = s(82), "z"), br!(), Some(s(84)), { x }, frag!(s(86), 86), raw!(s(87)), s(88), "k89&", b!(s(90)), 91, idf(92), i!(id = s(93), "z"), br!(), Some(s(95)), { x }, frag!(s(97), 97), raw!(s(98)), s(99), "k100&", b!(s(101)), 102, idf(103), i!(id = s(104), "z"), br!(), Some(s(106)), { x }, frag!(s(108), 108), raw!(s(109)), s(110), "k111&", b!(s(112)), 113, idf(114), i!(id = s(115), "z"), br!(), Some(s(117)), { x }, frag!(s(119), 119), raw!(s(120)), s(121), "k122&", b!(s(123)), 124, idf(125), i!(id = s(126), "z"), br!(), Some(s(128)))) } else { lit("<p class=\"p0 k1&amp; <b>p2</b> 3 4 <i id=\"p5\">z</i> <br> p7 "); esc(x); lit(" p99 p10 p11 k12&amp; <b>p13</b> 14 15 <i id=\"p16\">z</i> <br> p18 "); esc(x); lit(" p20&lt;20 p21 p22 k23&amp; <b>p24</b> 25 26 <i id=\"p27\">z</i> <br> p29 "); esc(x); lit(" p3131 p32 p33 k34&amp; <b>p35</b> 36 37 <i id=\"p38\">z</i> <br> p40 "); esc(x); lit(" p4242 p43 p44 k45&amp; <b>p46</b> 47 48 <i id=\"p49\">z</i> <br> p51 "); esc(x); lit(" p5353 p54< p55 k56&amp; <b>p57</b> 58 59 <i id=\"p60\">z</i> <br> p62 "); esc(x); lit(" p6464 p65 p66 k67&amp; <b>p68</b> 69 70 <i id=\"p71&lt;\">z</i> <br> p73 "); esc(x); lit(" p7575 p76 p77 k78&amp; <b>p79</b> 80 81 <i id=\"p82\">z</i> <br> p84 "); esc(x); lit(" p8686 p87 p88&lt; k89&amp; <b>p90</b> 91 92 <i id=\"p93\">z</i> <br> p95 "); esc(x); lit(" p9797 p98 p99 k100&amp; <b>p101</b> 102 103 <i id=\"p104\">z</i> <br> p106 "); esc(x); lit(" p108108 p109 p110 k111&amp; <b>p112</b> 113 114 <i id=\"p115\">z</i> <br> p117 "); esc(x); lit(" p119119 p120 p121 k122&amp; <b>p123</b> 124 125 <i id=\"p126\">z</i> <br> p128\">a b</p>"); end(b, p!(class = classes!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }, frag!(s(64), 64), raw!(s(65)), s(66), "k67&", b!(s(68)), 69, idf(70), i!(id = s(71), "z"), br!(), Some(s(73)), { x }, frag!(s(75), 75), raw!(s(76)), s(77), "k78&", b!(s(79)), 80, idf(81), i!(id = s(82), "z"), br!(), Some(s(84)), { x }, frag!(s(86), 86), raw!(s(87)), s(88), "k89&", b!(s(90)), 91, idf(92), i!(id = s(93), "z"), br!(), Some(s(95)), { x }, frag!(s(97), 97), raw!(s(98)), s(99), "k100&", b!(s(101)), 102, idf(103), i!(id = s(104), "z"), br!(), Some(s(106)), { x }, frag!(s(108), 108), raw!(s(109)), s(110), "k111&", b!(s(112)), 113, idf(114), i!(id = s(115), "z"), br!(), Some(s(117)), { x }, frag!(s(119), 119), raw!(s(120)), s(121), "k122&", b!(s(123)), 124, idf(125), i!(id = s(126), "z"), br!(), Some(s(128))), classes!("a", "b"))) } }
}
