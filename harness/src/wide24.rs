//! wide and deep templates (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
static POOL: [&str; 300] = ["p0", "p1", "p2", "p3<", "p4", "p5", "p6", "p7", "p8", "p9", "p10", "p11", "p12", "p13", "p14", "p15", "p16", "p17", "p18", "p19", "p20<", "p21", "p22", "p23", "p24", "p25", "p26", "p27", "p28", "p29", "p30", "p31", "p32", "p33", "p34", "p35", "p36", "p37<", "p38", "p39", "p40", "p41", "p42", "p43", "p44", "p45", "p46", "p47", "p48", "p49", "p50", "p51", "p52", "p53", "p54<", "p55", "p56", "p57", "p58", "p59", "p60", "p61", "p62", "p63", "p64", "p65", "p66", "p67", "p68", "p69", "p70", "p71<", "p72", "p73", "p74", "p75", "p76", "p77", "p78", "p79", "p80", "p81", "p82", "p83", "p84", "p85", "p86", "p87", "p88<", "p89", "p90", "p91", "p92", "p93", "p94", "p95", "p96", "p97", "p98", "p99", "p100", "p101", "p102", "p103", "p104", "p105<", "p106", "p107", "p108", "p109", "p110", "p111", "p112", "p113", "p114", "p115", "p116", "p117", "p118", "p119", "p120", "p121", "p122<", "p123", "p124", "p125", "p126", "p127", "p128", "p129", "p130", "p131", "p132", "p133", "p134", "p135", "p136", "p137", "p138", "p139<", "p140", "p141", "p142", "p143", "p144", "p145", "p146", "p147", "p148", "p149", "p150", "p151", "p152", "p153", "p154", "p155", "p156<", "p157", "p158", "p159", "p160", "p161", "p162", "p163", "p164", "p165", "p166", "p167", "p168", "p169", "p170", "p171", "p172", "p173<", "p174", "p175", "p176", "p177", "p178", "p179", "p180", "p181", "p182", "p183", "p184", "p185", "p186", "p187", "p188", "p189", "p190<", "p191", "p192", "p193", "p194", "p195", "p196", "p197", "p198", "p199", "p200", "p201", "p202", "p203", "p204", "p205", "p206", "p207<", "p208", "p209", "p210", "p211", "p212", "p213", "p214", "p215", "p216", "p217", "p218", "p219", "p220", "p221", "p222", "p223", "p224<", "p225", "p226", "p227", "p228", "p229", "p230", "p231", "p232", "p233", "p234", "p235", "p236", "p237", "p238", "p239", "p240", "p241<", "p242", "p243", "p244", "p245", "p246", "p247", "p248", "p249", "p250", "p251", "p252", "p253", "p254", "p255", "p256", "p257", "p258<", "p259", "p260", "p261", "p262", "p263", "p264", "p265", "p266", "p267", "p268", "p269", "p270", "p271", "p272", "p273", "p274", "p275<", "p276", "p277", "p278", "p279", "p280", "p281", "p282", "p283", "p284", "p285", "p286", "p287", "p288", "p289", "p290", "p291", "p292<", "p293", "p294", "p295", "p296", "p297", "p298", "p299"];
#[inline(never)] fn s(i: usize) -> &'static str { POOL[i] }
fn idf<T>(v: T) -> T { v }
case! {
    h_24_w006(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i>"); let r_ = render!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z")); end(b, raw!(r_)) }
    h_24_w007(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>"); let r_ = render!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!()); end(b, raw!(r_)) }
    h_24_w008(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); let r_ = render!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7))); end(b, raw!(r_)) }
    h_24_w009(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); let r_ = render!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }); end(b, raw!(r_)) }
    h_24_w010(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99"); let r_ = render!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9)); end(b, raw!(r_)) }
    h_24_w012(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11"); let r_ = render!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11)); end(b, raw!(r_)) }
    h_24_w013(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;"); let r_ = render!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&"); end(b, raw!(r_)) }
    h_24_w016(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415"); let r_ = render!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15)); end(b, raw!(r_)) }
    h_24_w017(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i>"); let r_ = render!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z")); end(b, raw!(r_)) }
    h_24_w026(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>25"); let r_ = render!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25); end(b, raw!(r_)) }
    h_24_w027(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526"); let r_ = render!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26)); end(b, raw!(r_)) }
    h_24_w033(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32"); let r_ = render!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32))); end(b, raw!(r_)) }
    h_24_w065(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32p33k34&amp;<b>p35</b>3637<i id=\"p38\">z</i><br>p40"); esc(x); lit("p4242p43p44k45&amp;<b>p46</b>4748<i id=\"p49\">z</i><br>p51"); esc(x); lit("p5353p54<p55k56&amp;<b>p57</b>5859<i id=\"p60\">z</i><br>p62"); esc(x); lit("p6464"); let r_ = render!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }, frag!(s(64), 64)); end(b, raw!(r_)) }
}
