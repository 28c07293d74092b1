//! wide and deep templates (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
static POOL: [&str; 300] = ["p0", "p1", "p2", "p3<", "p4", "p5", "p6", "p7", "p8", "p9", "p10", "p11", "p12", "p13", "p14", "p15", "p16", "p17", "p18", "p19", "p20<", "p21", "p22", "p23", "p24", "p25", "p26", "p27", "p28", "p29", "p30", "p31", "p32", "p33", "p34", "p35", "p36", "p37<", "p38", "p39", "p40", "p41", "p42", "p43", "p44", "p45", "p46", "p47", "p48", "p49", "p50", "p51", "p52", "p53", "p54<", "p55", "p56", "p57", "p58", "p59", "p60", "p61", "p62", "p63", "p64", "p65", "p66", "p67", "p68", "p69", "p70", "p71<", "p72", "p73", "p74", "p75", "p76", "p77", "p78", "p79", "p80", "p81", "p82", "p83", "p84", "p85", "p86", "p87", "p88<", "p89", "p90", "p91", "p92", "p93", "p94", "p95", "p96", "p97", "p98", "p99", "p100", "p101", "p102", "p103", "p104", "p105<", "p106", "p107", "p108", "p109", "p110", "p111", "p112", "p113", "p114", "p115", "p116", "p117", "p118", "p119", "p120", "p121", "p122<", "p123", "p124", "p125", "p126", "p127", "p128", "p129", "p130", "p131", "p132", "p133", "p134", "p135", "p136", "p137", "p138", "p139<", "p140", "p141", "p142", "p143", "p144", "p145", "p146", "p147", "p148", "p149", "p150", "p151", "p152", "p153", "p154", "p155", "p156<", "p157", "p158", "p159", "p160", "p161", "p162", "p163", "p164", "p165", "p166", "p167", "p168", "p169", "p170", "p171", "p172", "p173<", "p174", "p175", "p176", "p177", "p178", "p179", "p180", "p181", "p182", "p183", "p184", "p185", "p186", "p187", "p188", "p189", "p190<", "p191", "p192", "p193", "p194", "p195", "p196", "p197", "p198", "p199", "p200", "p201", "p202", "p203", "p204", "p205", "p206", "p207<", "p208", "p209", "p210", "p211", "p212", "p213", "p214", "p215", "p216", "p217", "p218", "p219", "p220", "p221", "p222", "p223", "p224<", "p225", "p226", "p227", "p228", "p229", "p230", "p231", "p232", "p233", "p234", "p235", "p236", "p237", "p238", "p239", "p240", "p241<", "p242", "p243", "p244", "p245", "p246", "p247", "p248", "p249", "p250", "p251", "p252", "p253", "p254", "p255", "p256", "p257", "p258<", "p259", "p260", "p261", "p262", "p263", "p264", "p265", "p266", "p267", "p268", "p269", "p270", "p271", "p272", "p273", "p274", "p275<", "p276", "p277", "p278", "p279", "p280", "p281", "p282", "p283", "p284", "p285", "p286", "p287", "p288", "p289", "p290", "p291", "p292<", "p293", "p294", "p295", "p296", "p297", "p298", "p299"];
#[inline(never)] fn s(i: usize) -> &'static str { POOL[i] }
fn idf<T>(v: T) -> T { v }
case! {
    h_14_w007_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0p1p2p3&lt;p4p5p6</div>"); end(b, div!(s(0), s(1), s(2), s(3), s(4), s(5), s(6))) }
    h_14_w007_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>k0p1k2p3&lt;k4p5k6</div>"); end(b, div!("k0", s(1), "k2", s(3), "k4", s(5), "k6")) }
    h_14_w007_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br></div>"); end(b, div!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!())) }
    h_14_w008_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0p1p2p3&lt;p4p5p6p7</section>"); end(b, section!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7))) }
    h_14_w008_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>k0p1k2p3&lt;k4p5k6p7</section>"); end(b, section!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7))) }
    h_14_w008_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7</section>"); end(b, section!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)))) }
    h_14_w009_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0p1p2p3&lt;p4p5p6p7p8</div>"); end(b, div!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8))) }
    h_14_w009_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>k0p1k2p3&lt;k4p5k6p7k8</div>"); end(b, div!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8")) }
    h_14_w009_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("</div>"); end(b, div!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x })) }
    h_14_w010_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0p1p2p3&lt;p4p5p6p7p8p9</section>"); end(b, section!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9))) }
    h_14_w010_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>k0p1k2p3&lt;k4p5k6p7k8p9</section>"); end(b, section!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9))) }
    h_14_w010_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99</section>"); end(b, section!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9))) }
    h_14_w011_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0p1p2p3&lt;p4p5p6p7p8p9p10</div>"); end(b, div!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10))) }
    h_14_w011_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>k0p1k2p3&lt;k4p5k6p7k8p9k10</div>"); end(b, div!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10")) }
    h_14_w011_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10</div>"); end(b, div!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)))) }
    h_14_w012_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0p1p2p3&lt;p4p5p6p7p8p9p10p11</section>"); end(b, section!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11))) }
    h_14_w012_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>k0p1k2p3&lt;k4p5k6p7k8p9k10p11</section>"); end(b, section!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11))) }
    h_14_w012_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11</section>"); end(b, section!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11))) }
    h_14_w013_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12</div>"); end(b, div!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12))) }
    h_14_w013_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12</div>"); end(b, div!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12")) }
    h_14_w013_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;</div>"); end(b, div!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&")) }
    h_14_w015_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14</div>"); end(b, div!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14))) }
    h_14_w015_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14</div>"); end(b, div!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14")) }
    h_14_w015_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>14</div>"); end(b, div!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14)) }
    h_14_w016_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15</section>"); end(b, section!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15))) }
    h_14_w016_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15</section>"); end(b, section!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15))) }
    h_14_w016_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415</section>"); end(b, section!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15))) }
    h_14_w017_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16</div>"); end(b, div!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16))) }
    h_14_w017_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16</div>"); end(b, div!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16")) }
    h_14_w017_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i></div>"); end(b, div!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"))) }
    h_14_w020_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19</section>"); end(b, section!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19))) }
    h_14_w020_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19</section>"); end(b, section!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19))) }
    h_14_w020_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("</section>"); end(b, section!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x })) }
    h_14_w024_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23</section>"); end(b, section!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23))) }
    h_14_w024_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23</section>"); end(b, section!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23))) }
    h_14_w024_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;</section>"); end(b, section!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&")) }
    h_14_w025_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24</div>"); end(b, div!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24))) }
    h_14_w025_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24</div>"); end(b, div!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24")) }
    h_14_w025_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b></div>"); end(b, div!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)))) }
    h_14_w026_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25</section>"); end(b, section!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25))) }
    h_14_w026_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25</section>"); end(b, section!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25))) }
    h_14_w026_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>25</section>"); end(b, section!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25)) }
    h_14_w027_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26</div>"); end(b, div!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26))) }
    h_14_w027_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26</div>"); end(b, div!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26")) }
    h_14_w027_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526</div>"); end(b, div!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26))) }
    h_14_w028_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27</section>"); end(b, section!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27))) }
    h_14_w028_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26p27</section>"); end(b, section!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27))) }
    h_14_w028_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i></section>"); end(b, section!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"))) }
    h_14_w031_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27p28p29p30</div>"); end(b, div!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30))) }
    h_14_w031_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26p27k28p29k30</div>"); end(b, div!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30")) }
    h_14_w031_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("</div>"); end(b, div!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x })) }
    h_14_w032_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27p28p29p30p31</section>"); end(b, section!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31))) }
    h_14_w032_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26p27k28p29k30p31</section>"); end(b, section!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31))) }
    h_14_w032_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131</section>"); end(b, section!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31))) }
    h_14_w033_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27p28p29p30p31p32</div>"); end(b, div!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32))) }
    h_14_w033_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26p27k28p29k30p31k32</div>"); end(b, div!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32")) }
    h_14_w033_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32</div>"); end(b, div!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)))) }
    h_14_w040_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27p28p29p30p31p32p33p34p35p36p37&lt;p38p39</section>"); end(b, section!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39))) }
    h_14_w040_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26p27k28p29k30p31k32p33k34p35k36p37&lt;k38p39</section>"); end(b, section!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39))) }
    h_14_w040_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32p33k34&amp;<b>p35</b>3637<i id=\"p38\">z</i><br></section>"); end(b, section!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!())) }
    h_14_w050_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32p33k34&amp;<b>p35</b>3637<i id=\"p38\">z</i><br>p40"); esc(x); lit("p4242p43p44k45&amp;<b>p46</b>4748<i id=\"p49\">z</i></section>"); end(b, section!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"))) }
    h_14_w063_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32p33k34&amp;<b>p35</b>3637<i id=\"p38\">z</i><br>p40"); esc(x); lit("p4242p43p44k45&amp;<b>p46</b>4748<i id=\"p49\">z</i><br>p51"); esc(x); lit("p5353p54<p55k56&amp;<b>p57</b>5859<i id=\"p60\">z</i><br>p62</div>"); end(b, div!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)))) }
    h_14_w064_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27p28p29p30p31p32p33p34p35p36p37&lt;p38p39p40p41p42p43p44p45p46p47p48p49p50p51p52p53p54&lt;p55p56p57p58p59p60p61p62p63</section>"); end(b, section!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49), s(50), s(51), s(52), s(53), s(54), s(55), s(56), s(57), s(58), s(59), s(60), s(61), s(62), s(63))) }
    h_14_w064_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26p27k28p29k30p31k32p33k34p35k36p37&lt;k38p39k40p41k42p43k44p45k46p47k48p49k50p51k52p53k54p55k56p57k58p59k60p61k62p63</section>"); end(b, section!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49), "k50", s(51), "k52", s(53), "k54", s(55), "k56", s(57), "k58", s(59), "k60", s(61), "k62", s(63))) }
    h_14_w064_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32p33k34&amp;<b>p35</b>3637<i id=\"p38\">z</i><br>p40"); esc(x); lit("p4242p43p44k45&amp;<b>p46</b>4748<i id=\"p49\">z</i><br>p51"); esc(x); lit("p5353p54<p55k56&amp;<b>p57</b>5859<i id=\"p60\">z</i><br>p62"); esc(x); lit("</section>"); end(b, section!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x })) }
    h_14_w065_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27p28p29p30p31p32p33p34p35p36p37&lt;p38p39p40p41p42p43p44p45p46p47p48p49p50p51p52p53p54&lt;p55p56p57p58p59p60p61p62p63p64</div>"); end(b, div!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49), s(50), s(51), s(52), s(53), s(54), s(55), s(56), s(57), s(58), s(59), s(60), s(61), s(62), s(63), s(64))) }
    h_14_w065_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26p27k28p29k30p31k32p33k34p35k36p37&lt;k38p39k40p41k42p43k44p45k46p47k48p49k50p51k52p53k54p55k56p57k58p59k60p61k62p63k64</div>"); end(b, div!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49), "k50", s(51), "k52", s(53), "k54", s(55), "k56", s(57), "k58", s(59), "k60", s(61), "k62", s(63), "k64")) }
    h_14_w065_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32p33k34&amp;<b>p35</b>3637<i id=\"p38\">z</i><br>p40"); esc(x); lit("p4242p43p44k45&amp;<b>p46</b>4748<i id=\"p49\">z</i><br>p51"); esc(x); lit("p5353p54<p55k56&amp;<b>p57</b>5859<i id=\"p60\">z</i><br>p62"); esc(x); lit("p6464</div>"); end(b, div!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }, frag!(s(64), 64))) }
    h_14_w099_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32p33k34&amp;<b>p35</b>3637<i id=\"p38\">z</i><br>p40"); esc(x); lit("p4242p43p44k45&amp;<b>p46</b>4748<i id=\"p49\">z</i><br>p51"); esc(x); lit("p5353p54<p55k56&amp;<b>p57</b>5859<i id=\"p60\">z</i><br>p62"); esc(x); lit("p6464p65p66k67&amp;<b>p68</b>6970<i id=\"p71&lt;\">z</i><br>p73"); esc(x); lit("p7575p76p77k78&amp;<b>p79</b>8081<i id=\"p82\">z</i><br>p84"); esc(x); lit("p8686p87p88&lt;k89&amp;<b>p90</b>9192<i id=\"p93\">z</i><br>p95"); esc(x); lit("p9797p98</div>"); end(b, div!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }, frag!(s(64), 64), raw!(s(65)), s(66), "k67&", b!(s(68)), 69, idf(70), i!(id = s(71), "z"), br!(), Some(s(73)), { x }, frag!(s(75), 75), raw!(s(76)), s(77), "k78&", b!(s(79)), 80, idf(81), i!(id = s(82), "z"), br!(), Some(s(84)), { x }, frag!(s(86), 86), raw!(s(87)), s(88), "k89&", b!(s(90)), 91, idf(92), i!(id = s(93), "z"), br!(), Some(s(95)), { x }, frag!(s(97), 97), raw!(s(98)))) }
    h_14_w100_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27p28p29p30p31p32p33p34p35p36p37&lt;p38p39p40p41p42p43p44p45p46p47p48p49p50p51p52p53p54&lt;p55p56p57p58p59p60p61p62p63p64p65p66p67p68p69p70p71&lt;p72p73p74p75p76p77p78p79p80p81p82p83p84p85p86p87p88&lt;p89p90p91p92p93p94p95p96p97p98p99</section>"); end(b, section!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49), s(50), s(51), s(52), s(53), s(54), s(55), s(56), s(57), s(58), s(59), s(60), s(61), s(62), s(63), s(64), s(65), s(66), s(67), s(68), s(69), s(70), s(71), s(72), s(73), s(74), s(75), s(76), s(77), s(78), s(79), s(80), s(81), s(82), s(83), s(84), s(85), s(86), s(87), s(88), s(89), s(90), s(91), s(92), s(93), s(94), s(95), s(96), s(97), s(98), s(99))) }
    h_14_w100_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26p27k28p29k30p31k32p33k34p35k36p37&lt;k38p39k40p41k42p43k44p45k46p47k48p49k50p51k52p53k54p55k56p57k58p59k60p61k62p63k64p65k66p67k68p69k70p71&lt;k72p73k74p75k76p77k78p79k80p81k82p83k84p85k86p87k88p89k90p91k92p93k94p95k96p97k98p99</section>"); end(b, section!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49), "k50", s(51), "k52", s(53), "k54", s(55), "k56", s(57), "k58", s(59), "k60", s(61), "k62", s(63), "k64", s(65), "k66", s(67), "k68", s(69), "k70", s(71), "k72", s(73), "k74", s(75), "k76", s(77), "k78", s(79), "k80", s(81), "k82", s(83), "k84", s(85), "k86", s(87), "k88", s(89), "k90", s(91), "k92", s(93), "k94", s(95), "k96", s(97), "k98", s(99))) }
    h_14_w100_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32p33k34&amp;<b>p35</b>3637<i id=\"p38\">z</i><br>p40"); esc(x); lit("p4242p43p44k45&amp;<b>p46</b>4748<i id=\"p49\">z</i><br>p51"); esc(x); lit("p5353p54<p55k56&amp;<b>p57</b>5859<i id=\"p60\">z</i><br>p62"); esc(x); lit("p6464p65p66k67&amp;<b>p68</b>6970<i id=\"p71&lt;\">z</i><br>p73"); esc(x); lit("p7575p76p77k78&amp;<b>p79</b>8081<i id=\"p82\">z</i><br>p84"); esc(x); lit("p8686p87p88&lt;k89&amp;<b>p90</b>9192<i id=\"p93\">z</i><br>p95"); esc(x); lit("p9797p98p99</section>"); end(b, section!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }, frag!(s(64), 64), raw!(s(65)), s(66), "k67&", b!(s(68)), 69, idf(70), i!(id = s(71), "z"), br!(), Some(s(73)), { x }, frag!(s(75), 75), raw!(s(76)), s(77), "k78&", b!(s(79)), 80, idf(81), i!(id = s(82), "z"), br!(), Some(s(84)), { x }, frag!(s(86), 86), raw!(s(87)), s(88), "k89&", b!(s(90)), 91, idf(92), i!(id = s(93), "z"), br!(), Some(s(95)), { x }, frag!(s(97), 97), raw!(s(98)), s(99))) }
    h_14_w101_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32p33k34&amp;<b>p35</b>3637<i id=\"p38\">z</i><br>p40"); esc(x); lit("p4242p43p44k45&amp;<b>p46</b>4748<i id=\"p49\">z</i><br>p51"); esc(x); lit("p5353p54<p55k56&amp;<b>p57</b>5859<i id=\"p60\">z</i><br>p62"); esc(x); lit("p6464p65p66k67&amp;<b>p68</b>6970<i id=\"p71&lt;\">z</i><br>p73"); esc(x); lit("p7575p76p77k78&amp;<b>p79</b>8081<i id=\"p82\">z</i><br>p84"); esc(x); lit("p8686p87p88&lt;k89&amp;<b>p90</b>9192<i id=\"p93\">z</i><br>p95"); esc(x); lit("p9797p98p99k100&amp;</div>"); end(b, div!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }, frag!(s(64), 64), raw!(s(65)), s(66), "k67&", b!(s(68)), 69, idf(70), i!(id = s(71), "z"), br!(), Some(s(73)), { x }, frag!(s(75), 75), raw!(s(76)), s(77), "k78&", b!(s(79)), 80, idf(81), i!(id = s(82), "z"), br!(), Some(s(84)), { x }, frag!(s(86), 86), raw!(s(87)), s(88), "k89&", b!(s(90)), 91, idf(92), i!(id = s(93), "z"), br!(), Some(s(95)), { x }, frag!(s(97), 97), raw!(s(98)), s(99), "k100&")) }
    h_14_w127_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32p33k34&amp;<b>p35</b>3637<i id=\"p38\">z</i><br>p40"); esc(x); lit("p4242p43p44k45&amp;<b>p46</b>4748<i id=\"p49\">z</i><br>p51"); esc(x); lit("p5353p54<p55k56&amp;<b>p57</b>5859<i id=\"p60\">z</i><br>p62"); esc(x); lit("p6464p65p66k67&amp;<b>p68</b>6970<i id=\"p71&lt;\">z</i><br>p73"); esc(x); lit("p7575p76p77k78&amp;<b>p79</b>8081<i id=\"p82\">z</i><br>p84"); esc(x); lit("p8686p87p88&lt;k89&amp;<b>p90</b>9192<i id=\"p93\">z</i><br>p95"); esc(x); lit("p9797p98p99k100&amp;<b>p101</b>102103<i id=\"p104\">z</i><br>p106"); esc(x); lit("p108108p109p110k111&amp;<b>p112</b>113114<i id=\"p115\">z</i><br>p117"); esc(x); lit("p119119p120p121k122&amp;<b>p123</b>124125<i id=\"p126\">z</i></div>"); end(b, div!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }, frag!(s(64), 64), raw!(s(65)), s(66), "k67&", b!(s(68)), 69, idf(70), i!(id = s(71), "z"), br!(), Some(s(73)), { x }, frag!(s(75), 75), raw!(s(76)), s(77), "k78&", b!(s(79)), 80, idf(81), i!(id = s(82), "z"), br!(), Some(s(84)), { x }, frag!(s(86), 86), raw!(s(87)), s(88), "k89&", b!(s(90)), 91, idf(92), i!(id = s(93), "z"), br!(), Some(s(95)), { x }, frag!(s(97), 97), raw!(s(98)), s(99), "k100&", b!(s(101)), 102, idf(103), i!(id = s(104), "z"), br!(), Some(s(106)), { x }, frag!(s(108), 108), raw!(s(109)), s(110), "k111&", b!(s(112)), 113, idf(114), i!(id = s(115), "z"), br!(), Some(s(117)), { x }, frag!(s(119), 119), raw!(s(120)), s(121), "k122&", b!(s(123)), 124, idf(125), i!(id = s(126), "z"))) }
    h_14_w128_0(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0p1p2p3&lt;p4p5p6p7p8p9p10p11p12p13p14p15p16p17p18p19p20&lt;p21p22p23p24p25p26p27p28p29p30p31p32p33p34p35p36p37&lt;p38p39p40p41p42p43p44p45p46p47p48p49p50p51p52p53p54&lt;p55p56p57p58p59p60p61p62p63p64p65p66p67p68p69p70p71&lt;p72p73p74p75p76p77p78p79p80p81p82p83p84p85p86p87p88&lt;p89p90p91p92p93p94p95p96p97p98p99p100p101p102p103p104p105&lt;p106p107p108p109p110p111p112p113p114p115p116p117p118p119p120p121p122&lt;p123p124p125p126p127</section>"); end(b, section!(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), s(10), s(11), s(12), s(13), s(14), s(15), s(16), s(17), s(18), s(19), s(20), s(21), s(22), s(23), s(24), s(25), s(26), s(27), s(28), s(29), s(30), s(31), s(32), s(33), s(34), s(35), s(36), s(37), s(38), s(39), s(40), s(41), s(42), s(43), s(44), s(45), s(46), s(47), s(48), s(49), s(50), s(51), s(52), s(53), s(54), s(55), s(56), s(57), s(58), s(59), s(60), s(61), s(62), s(63), s(64), s(65), s(66), s(67), s(68), s(69), s(70), s(71), s(72), s(73), s(74), s(75), s(76), s(77), s(78), s(79), s(80), s(81), s(82), s(83), s(84), s(85), s(86), s(87), s(88), s(89), s(90), s(91), s(92), s(93), s(94), s(95), s(96), s(97), s(98), s(99), s(100), s(101), s(102), s(103), s(104), s(105), s(106), s(107), s(108), s(109), s(110), s(111), s(112), s(113), s(114), s(115), s(116), s(117), s(118), s(119), s(120), s(121), s(122), s(123), s(124), s(125), s(126), s(127))) }
    h_14_w128_1(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>k0p1k2p3&lt;k4p5k6p7k8p9k10p11k12p13k14p15k16p17k18p19k20p21k22p23k24p25k26p27k28p29k30p31k32p33k34p35k36p37&lt;k38p39k40p41k42p43k44p45k46p47k48p49k50p51k52p53k54p55k56p57k58p59k60p61k62p63k64p65k66p67k68p69k70p71&lt;k72p73k74p75k76p77k78p79k80p81k82p83k84p85k86p87k88p89k90p91k92p93k94p95k96p97k98p99k100p101k102p103k104p105&lt;k106p107k108p109k110p111k112p113k114p115k116p117k118p119k120p121k122p123k124p125k126p127</section>"); end(b, section!("k0", s(1), "k2", s(3), "k4", s(5), "k6", s(7), "k8", s(9), "k10", s(11), "k12", s(13), "k14", s(15), "k16", s(17), "k18", s(19), "k20", s(21), "k22", s(23), "k24", s(25), "k26", s(27), "k28", s(29), "k30", s(31), "k32", s(33), "k34", s(35), "k36", s(37), "k38", s(39), "k40", s(41), "k42", s(43), "k44", s(45), "k46", s(47), "k48", s(49), "k50", s(51), "k52", s(53), "k54", s(55), "k56", s(57), "k58", s(59), "k60", s(61), "k62", s(63), "k64", s(65), "k66", s(67), "k68", s(69), "k70", s(71), "k72", s(73), "k74", s(75), "k76", s(77), "k78", s(79), "k80", s(81), "k82", s(83), "k84", s(85), "k86", s(87), "k88", s(89), "k90", s(91), "k92", s(93), "k94", s(95), "k96", s(97), "k98", s(99), "k100", s(101), "k102", s(103), "k104", s(105), "k106", s(107), "k108", s(109), "k110", s(111), "k112", s(113), "k114", s(115), "k116", s(117), "k118", s(119), "k120", s(121), "k122", s(123), "k124", s(125), "k126", s(127))) }
    h_14_w128_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32p33k34&amp;<b>p35</b>3637<i id=\"p38\">z</i><br>p40"); esc(x); lit("p4242p43p44k45&amp;<b>p46</b>4748<i id=\"p49\">z</i><br>p51"); esc(x); lit("p5353p54<p55k56&amp;<b>p57</b>5859<i id=\"p60\">z</i><br>p62"); esc(x); lit("p6464p65p66k67&amp;<b>p68</b>6970<i id=\"p71&lt;\">z</i><br>p73"); esc(x); lit("p7575p76p77k78&amp;<b>p79</b>8081<i id=\"p82\">z</i><br>p84"); esc(x); lit("p8686p87p88&lt;k89&amp;<b>p90</b>9192<i id=\"p93\">z</i><br>p95"); esc(x); lit("p9797p98p99k100&amp;<b>p101</b>102103<i id=\"p104\">z</i><br>p106"); esc(x); lit("p108108p109p110k111&amp;<b>p112</b>113114<i id=\"p115\">z</i><br>p117"); esc(x); lit("p119119p120p121k122&amp;<b>p123</b>124125<i id=\"p126\">z</i><br></section>"); end(b, section!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }, frag!(s(64), 64), raw!(s(65)), s(66), "k67&", b!(s(68)), 69, idf(70), i!(id = s(71), "z"), br!(), Some(s(73)), { x }, frag!(s(75), 75), raw!(s(76)), s(77), "k78&", b!(s(79)), 80, idf(81), i!(id = s(82), "z"), br!(), Some(s(84)), { x }, frag!(s(86), 86), raw!(s(87)), s(88), "k89&", b!(s(90)), 91, idf(92), i!(id = s(93), "z"), br!(), Some(s(95)), { x }, frag!(s(97), 97), raw!(s(98)), s(99), "k100&", b!(s(101)), 102, idf(103), i!(id = s(104), "z"), br!(), Some(s(106)), { x }, frag!(s(108), 108), raw!(s(109)), s(110), "k111&", b!(s(112)), 113, idf(114), i!(id = s(115), "z"), br!(), Some(s(117)), { x }, frag!(s(119), 119), raw!(s(120)), s(121), "k122&", b!(s(123)), 124, idf(125), i!(id = s(126), "z"), br!())) }
    h_14_w129_2(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<div>p0k1&amp;<b>p2</b>34<i id=\"p5\">z</i><br>p7"); esc(x); lit("p99p10p11k12&amp;<b>p13</b>1415<i id=\"p16\">z</i><br>p18"); esc(x); lit("p20&lt;20p21p22k23&amp;<b>p24</b>2526<i id=\"p27\">z</i><br>p29"); esc(x); lit("p3131p32p33k34&amp;<b>p35</b>3637<i id=\"p38\">z</i><br>p40"); esc(x); lit("p4242p43p44k45&amp;<b>p46</b>4748<i id=\"p49\">z</i><br>p51"); esc(x); lit("p5353p54<p55k56&amp;<b>p57</b>5859<i id=\"p60\">z</i><br>p62"); esc(x); lit("p6464p65p66k67&amp;<b>p68</b>6970<i id=\"p71&lt;\">z</i><br>p73"); esc(x); lit("p7575p76p77k78&amp;<b>p79</b>8081<i id=\"p82\">z</i><br>p84"); esc(x); lit("p8686p87p88&lt;k89&amp;<b>p90</b>9192<i id=\"p93\">z</i><br>p95"); esc(x); lit("p9797p98p99k100&amp;<b>p101</b>102103<i id=\"p104\">z</i><br>p106"); esc(x); lit("p108108p109p110k111&amp;<b>p112</b>113114<i id=\"p115\">z</i><br>p117"); esc(x); lit("p119119p120p121k122&amp;<b>p123</b>124125<i id=\"p126\">z</i><br>p128</div>"); end(b, div!(s(0), "k1&", b!(s(2)), 3, idf(4), i!(id = s(5), "z"), br!(), Some(s(7)), { x }, frag!(s(9), 9), raw!(s(10)), s(11), "k12&", b!(s(13)), 14, idf(15), i!(id = s(16), "z"), br!(), Some(s(18)), { x }, frag!(s(20), 20), raw!(s(21)), s(22), "k23&", b!(s(24)), 25, idf(26), i!(id = s(27), "z"), br!(), Some(s(29)), { x }, frag!(s(31), 31), raw!(s(32)), s(33), "k34&", b!(s(35)), 36, idf(37), i!(id = s(38), "z"), br!(), Some(s(40)), { x }, frag!(s(42), 42), raw!(s(43)), s(44), "k45&", b!(s(46)), 47, idf(48), i!(id = s(49), "z"), br!(), Some(s(51)), { x }, frag!(s(53), 53), raw!(s(54)), s(55), "k56&", b!(s(57)), 58, idf(59), i!(id = s(60), "z"), br!(), Some(s(62)), { x }, frag!(s(64), 64), raw!(s(65)), s(66), "k67&", b!(s(68)), 69, idf(70), i!(id = s(71), "z"), br!(), Some(s(73)), { x }, frag!(s(75), 75), raw!(s(76)), s(77), "k78&", b!(s(79)), 80, idf(81), i!(id = s(82), "z"), br!(), Some(s(84)), { x }, frag!(s(86), 86), raw!(s(87)), s(88), "k89&", b!(s(90)), 91, idf(92), i!(id = s(93), "z"), br!(), Some(s(95)), { x }, frag!(s(97), 97), raw!(s(98)), s(99), "k100&", b!(s(101)), 102, idf(103), i!(id = s(104), "z"), br!(), Some(s(106)), { x }, frag!(s(108), 108), raw!(s(109)), s(110), "k111&", b!(s(112)), 113, idf(114), i!(id = s(115), "z"), br!(), Some(s(117)), { x }, frag!(s(119), 119), raw!(s(120)), s(121), "k122&", b!(s(123)), 124, idf(125), i!(id = s(126), "z"), br!(), Some(s(128)))) }
    h_14_deep010(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<meter>p9<main><ins><header id=\"6\"><h3>p5<figure><dl><del id=\"2\"><code>p1<body>"); esc(x); lit("</body>k</code></del>p3&lt;</dl></figure>k</h3></header>p7</ins></main>k</meter>"); end(b, meter!(s(9), main!(ins!(header!(id = 6, h3!(s(5), figure!(dl!(del!(id = 2, code!(s(1), body!(x), "k")), s(3))), "k")), s(7))), "k")) }
    h_14_deep020(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<cite><blockquote id=\"18\"><aside>p17<video><title><textarea id=\"14\"><sup>p13<span><script><rt id=\"10\"><pre>p9<optgroup><meter><main id=\"6\"><ins>p5<header><h3><figure id=\"2\"><dl>p1<del>"); esc(x); lit("</del>k</dl></figure>p3&lt;</h3></header>k</ins></main>p7</meter></optgroup>k</pre></rt>p11</script></span>k</sup></textarea>p15</title></video>k</aside></blockquote>p19</cite>"); end(b, cite!(blockquote!(id = 18, aside!(s(17), video!(title!(textarea!(id = 14, sup!(s(13), span!(script!(rt!(id = 10, pre!(s(9), optgroup!(meter!(main!(id = 6, ins!(s(5), header!(h3!(figure!(id = 2, dl!(s(1), del!(x), "k")), s(3))), "k")), s(7))), "k")), s(11))), "k")), s(15))), "k")), s(19))) }
    h_14_deep040(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<h1><fieldset id=\"38\"><dialog>p37&lt;<datalist><caption><bdo id=\"34\"><article>p33<var><time><template id=\"30\"><summary>p29<small><samp><rp id=\"26\"><picture>p25<ol><menuitem><li id=\"22\"><iframe>p21<head><h2><figcaption id=\"18\"><div>p17<dd><cite><blockquote id=\"14\"><aside>p13<video><title><textarea id=\"10\"><sup>p9<span><script><rt id=\"6\"><pre>p5<optgroup><meter><main id=\"2\"><ins>p1<header>"); esc(x); lit("</header>k</ins></main>p3&lt;</meter></optgroup>k</pre></rt>p7</script></span>k</sup></textarea>p11</title></video>k</aside></blockquote>p15</cite></dd>k</div></figcaption>p19</h2></head>k</iframe></li>p23</menuitem></ol>k</picture></rp>p27</samp></small>k</summary></template>p31</time></var>k</article></bdo>p35</caption></datalist>k</dialog></fieldset>p39</h1>"); end(b, h1!(fieldset!(id = 38, dialog!(s(37), datalist!(caption!(bdo!(id = 34, article!(s(33), var!(time!(template!(id = 30, summary!(s(29), small!(samp!(rp!(id = 26, picture!(s(25), ol!(menuitem!(li!(id = 22, iframe!(s(21), head!(h2!(figcaption!(id = 18, div!(s(17), dd!(cite!(blockquote!(id = 14, aside!(s(13), video!(title!(textarea!(id = 10, sup!(s(9), span!(script!(rt!(id = 6, pre!(s(5), optgroup!(meter!(main!(id = 2, ins!(s(1), header!(x), "k")), s(3))), "k")), s(7))), "k")), s(11))), "k")), s(15))), "k")), s(19))), "k")), s(23))), "k")), s(27))), "k")), s(31))), "k")), s(35))), "k")), s(39))) }
    h_14_deep064(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<section><rtc id=\"62\"><progress>p61<option><nav><map id=\"58\"><kbd>p57<hgroup><h4><footer id=\"54\"><dt>p53<details><colgroup><button id=\"50\"><b>p49<abbr><u><th id=\"46\"><tbody>p45<style><select><ruby id=\"42\"><q>p41<output><noscript><mark id=\"38\"><label>p37&lt;<html><h5><form id=\"34\"><em>p33<dfn><data><canvas id=\"30\"><bdi>p29<address><ul><thead id=\"26\"><td>p25<sub><slot><s id=\"22\"><rb>p21<p><object><menu id=\"18\"><legend>p17<i><h6><h1 id=\"14\"><fieldset>p13<dialog><datalist><caption id=\"10\"><bdo>p9<article><var><time id=\"6\"><template>p5<summary><small><samp id=\"2\"><rp>p1<picture>"); esc(x); lit("</picture>k</rp></samp>p3&lt;</small></summary>k</template></time>p7</var></article>k</bdo></caption>p11</datalist></dialog>k</fieldset></h1>p15</h6></i>k</legend></menu>p19</object></p>k</rb></s>p23</slot></sub>k</td></thead>p27</ul></address>k</bdi></canvas>p31</data></dfn>k</em></form>p35</h5></html>k</label></mark>p39</noscript></output>k</q></ruby>p43</select></style>k</tbody></th>p47</u></abbr>k</b></button>p51</colgroup></details>k</dt></footer>p55</h4></hgroup>k</kbd></map>p59</nav></option>k</progress></rtc>p63</section>"); end(b, section!(rtc!(id = 62, progress!(s(61), option!(nav!(map!(id = 58, kbd!(s(57), hgroup!(h4!(footer!(id = 54, dt!(s(53), details!(colgroup!(button!(id = 50, b!(s(49), abbr!(u!(th!(id = 46, tbody!(s(45), style!(select!(ruby!(id = 42, q!(s(41), output!(noscript!(mark!(id = 38, label!(s(37), html!(h5!(form!(id = 34, em!(s(33), dfn!(data!(canvas!(id = 30, bdi!(s(29), address!(ul!(thead!(id = 26, td!(s(25), sub!(slot!(s!(id = 22, rb!(s(21), p!(object!(menu!(id = 18, legend!(s(17), i!(h6!(h1!(id = 14, fieldset!(s(13), dialog!(datalist!(caption!(id = 10, bdo!(s(9), article!(var!(time!(id = 6, template!(s(5), summary!(small!(samp!(id = 2, rp!(s(1), picture!(x), "k")), s(3))), "k")), s(7))), "k")), s(11))), "k")), s(15))), "k")), s(19))), "k")), s(23))), "k")), s(27))), "k")), s(31))), "k")), s(35))), "k")), s(39))), "k")), s(43))), "k")), s(47))), "k")), s(51))), "k")), s(55))), "k")), s(59))), "k")), s(63))) }
    h_14_deep080(b) { let x = t(1); let v = u8_(); let k = bool_(); lit("<rtc><progress id=\"78\"><option>p77<nav><map><kbd id=\"74\"><hgroup>p73<h4><footer><dt id=\"70\"><details>p69<colgroup><button><b id=\"66\"><abbr>p65<u><th><tbody id=\"62\"><style>p61<select><ruby><q id=\"58\"><output>p57<noscript><mark><label id=\"54\"><html>p53<h5><form><em id=\"50\"><dfn>p49<data><canvas><bdi id=\"46\"><address>p45<ul><thead><td id=\"42\"><sub>p41<slot><s><rb id=\"38\"><p>p37&lt;<object><menu><legend id=\"34\"><i>p33<h6><h1><fieldset id=\"30\"><dialog>p29<datalist><caption><bdo id=\"26\"><article>p25<var><time><template id=\"22\"><summary>p21<small><samp><rp id=\"18\"><picture>p17<ol><menuitem><li id=\"14\"><iframe>p13<head><h2><figcaption id=\"10\"><div>p9<dd><cite><blockquote id=\"6\"><aside>p5<video><title><textarea id=\"2\"><sup>p1<span>"); esc(x); lit("</span>k</sup></textarea>p3&lt;</title></video>k</aside></blockquote>p7</cite></dd>k</div></figcaption>p11</h2></head>k</iframe></li>p15</menuitem></ol>k</picture></rp>p19</samp></small>k</summary></template>p23</time></var>k</article></bdo>p27</caption></datalist>k</dialog></fieldset>p31</h1></h6>k</i></legend>p35</menu></object>k</p></rb>p39</s></slot>k</sub></td>p43</thead></ul>k</address></bdi>p47</canvas></data>k</dfn></em>p51</form></h5>k</html></label>p55</mark></noscript>k</output></q>p59</ruby></select>k</style></tbody>p63</th></u>k</abbr></b>p67</button></colgroup>k</details></dt>p71&lt;</footer></h4>k</hgroup></kbd>p75</map></nav>k</option></progress>p79</rtc>"); end(b, rtc!(progress!(id = 78, option!(s(77), nav!(map!(kbd!(id = 74, hgroup!(s(73), h4!(footer!(dt!(id = 70, details!(s(69), colgroup!(button!(b!(id = 66, abbr!(s(65), u!(th!(tbody!(id = 62, style!(s(61), select!(ruby!(q!(id = 58, output!(s(57), noscript!(mark!(label!(id = 54, html!(s(53), h5!(form!(em!(id = 50, dfn!(s(49), data!(canvas!(bdi!(id = 46, address!(s(45), ul!(thead!(td!(id = 42, sub!(s(41), slot!(s!(rb!(id = 38, p!(s(37), object!(menu!(legend!(id = 34, i!(s(33), h6!(h1!(fieldset!(id = 30, dialog!(s(29), datalist!(caption!(bdo!(id = 26, article!(s(25), var!(time!(template!(id = 22, summary!(s(21), small!(samp!(rp!(id = 18, picture!(s(17), ol!(menuitem!(li!(id = 14, iframe!(s(13), head!(h2!(figcaption!(id = 10, div!(s(9), dd!(cite!(blockquote!(id = 6, aside!(s(5), video!(title!(textarea!(id = 2, sup!(s(1), span!(x), "k")), s(3))), "k")), s(7))), "k")), s(11))), "k")), s(15))), "k")), s(19))), "k")), s(23))), "k")), s(27))), "k")), s(31))), "k")), s(35))), "k")), s(39))), "k")), s(43))), "k")), s(47))), "k")), s(51))), "k")), s(55))), "k")), s(59))), "k")), s(63))), "k")), s(67))), "k")), s(71))), "k")), s(75))), "k")), s(79))) }
}
