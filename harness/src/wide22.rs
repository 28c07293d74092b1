//! wide and deep templates (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
static POOL: [&str; 300] = ["p0", "p1", "p2", "p3<", "p4", "p5", "p6", "p7", "p8", "p9", "p10", "p11", "p12", "p13", "p14", "p15", "p16", "p17", "p18", "p19", "p20<", "p21", "p22", "p23", "p24", "p25", "p26", "p27", "p28", "p29", "p30", "p31", "p32", "p33", "p34", "p35", "p36", "p37<", "p38", "p39", "p40", "p41", "p42", "p43", "p44", "p45", "p46", "p47", "p48", "p49", "p50", "p51", "p52", "p53", "p54<", "p55", "p56", "p57", "p58", "p59", "p60", "p61", "p62", "p63", "p64", "p65", "p66", "p67", "p68", "p69", "p70", "p71<", "p72", "p73", "p74", "p75", "p76", "p77", "p78", "p79", "p80", "p81", "p82", "p83", "p84", "p85", "p86", "p87", "p88<", "p89", "p90", "p91", "p92", "p93", "p94", "p95", "p96", "p97", "p98", "p99", "p100", "p101", "p102", "p103", "p104", "p105<", "p106", "p107", "p108", "p109", "p110", "p111", "p112", "p113", "p114", "p115", "p116", "p117", "p118", "p119", "p120", "p121", "p122<", "p123", "p124", "p125", "p126", "p127", "p128", "p129", "p130", "p131", "p132", "p133", "p134", "p135", "p136", "p137", "p138", "p139<", "p140", "p141", "p142", "p143", "p144", "p145", "p146", "p147", "p148", "p149", "p150", "p151", "p152", "p153", "p154", "p155", "p156<", "p157", "p158", "p159", "p160", "p161", "p162", "p163", "p164", "p165", "p166", "p167", "p168", "p169", "p170", "p171", "p172", "p173<", "p174", "p175", "p176", "p177", "p178", "p179", "p180", "p181", "p182", "p183", "p184", "p185", "p186", "p187", "p188", "p189", "p190<", "p191", "p192", "p193", "p194", "p195", "p196", "p197", "p198", "p199", "p200", "p201", "p202", "p203", "p204", "p205", "p206", "p207<", "p208", "p209", "p210", "p211", "p212", "p213", "p214", "p215", "p216", "p217", "p218", "p219", "p220", "p221", "p222", "p223", "p224<", "p225", "p226", "p227", "p228", "p229", "p230", "p231", "p232", "p233", "p234", "p235", "p236", "p237", "p238", "p239", "p240", "p241<", "p242", "p243", "p244", "p245", "p246", "p247", "p248", "p249", "p250", "p251", "p252", "p253", "p254", "p255", "p256", "p257", "p258<", "p259", "p260", "p261", "p262", "p263", "p264", "p265", "p266", "p267", "p268", "p269", "p270", "p271", "p272", "p273", "p274", "p275<", "p276", "p277", "p278", "p279", "p280", "p281", "p282", "p283", "p284", "p285", "p286", "p287", "p288", "p289", "p290", "p291", "p292<", "p293", "p294", "p295", "p296", "p297", "p298", "p299"];
#[inline(never)] fn s(i: usize) -> &'static str { POOL[i] }
fn idf<T>(v: T) -> T { v }
case! {
    h_22_w000(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(30) { 0 => { let w = "&"; if k { lit("<p id=\"&amp;\">"); esc(x); lit("</p>"); end(b, p!(id = "&", x)) } else { lit("&amp;"); end(b, w) } } 1 => { let w = "&\""; if k { lit("&amp;&quot;"); esc(x); lit("&amp;&quot;"); end(b, frag!("&\"", x, "&\"")) } else { lit("&amp;&quot;"); end(b, w) } } 2 => { let w = "\"\"<"; if k { esc(x); lit(" &quot;&quot;&lt;"); end(b, classes!(x, "\"\"<")) } else { lit("&quot;&quot;&lt;"); end(b, w) } } 3 => { let w = "e&g&"; if k { lit("<p a=\"&amp;g&amp;e\"><b>e&amp;g&amp;</b></p>"); end(b, p!(b!(("e&g&")), a = { "&g&e" })) } else { lit("e&amp;g&amp;"); end(b, w) } } 4 => { let w = "<ghi>"; if k { lit("<p>&lt;ghi&gt;</p>"); end(b, p!("<ghi>")) } else { lit("&lt;ghi&gt;"); end(b, w) } } 5 => { let w = ">hi&k>"; if k { lit("<p id=\"&gt;hi&amp;k&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = ">hi&k>", x)) } else { lit("&gt;hi&amp;k&gt;"); end(b, w) } } 6 => { let w = "'ijklm\""; if k { lit("&#39;ijklm&quot;"); esc(x); lit("&#39;ijklm&quot;"); end(b, frag!("'ijklm\"", x, "'ijklm\"")) } else { lit("&#39;ijklm&quot;"); end(b, w) } } 7 => { let w = "\"jk&mnop"; if k { esc(x); lit(" &quot;jk&amp;mnop"); end(b, classes!(x, "\"jk&mnop")) } else { lit("&quot;jk&amp;mnop"); end(b, w) } } 8 => { let w = "'klmnop&&"; if k { lit("<p a=\"&amp;&amp;ponmlk&#39;\"><b>&#39;klmnop&amp;&amp;</b></p>"); end(b, p!(b!(("'klmnop&&")), a = { "&&ponmlk'" })) } else { lit("&#39;klmnop&amp;&amp;"); end(b, w) } } 9 => { let w = "klmn>pqrs'"; if k { lit("<p>klmn&gt;pqrs&#39;</p>"); end(b, p!("klmn>pqrs'")) } else { lit("klmn&gt;pqrs&#39;"); end(b, w) } } 10 => { let w = ">mnopqr'tuv"; if k { lit("<p id=\"&gt;mnopqr&#39;tuv\">"); esc(x); lit("</p>"); end(b, p!(id = ">mnopqr'tuv", x)) } else { lit("&gt;mnopqr&#39;tuv"); end(b, w) } } 11 => { let w = "&nop\"rstuvw\""; if k { lit("&amp;nop&quot;rstuvw&quot;"); esc(x); lit("&amp;nop&quot;rstuvw&quot;"); end(b, frag!("&nop\"rstuvw\"", x, "&nop\"rstuvw\"")) } else { lit("&amp;nop&quot;rstuvw&quot;"); end(b, w) } } 12 => { let w = "nop<rétuvwxy<"; if k { esc(x); lit(" nop&lt;rétuvwxy&lt;"); end(b, classes!(x, "nop<rétuvwxy<")) } else { lit("nop&lt;rétuvwxy&lt;"); end(b, w) } } 13 => { let w = "'pq&stuvwxyz01"; if k { lit("<p a=\"10zyxwvuts&amp;qp&#39;\"><b>&#39;pq&amp;stuvwxyz01</b></p>"); end(b, p!(b!(("'pq&stuvwxyz01")), a = { "10zyxwvuts&qp'" })) } else { lit("&#39;pq&amp;stuvwxyz01"); end(b, w) } } 14 => { let w = "<qrs\"uvwxyz012'"; if k { lit("<p>&lt;qrs&quot;uvwxyz012&#39;</p>"); end(b, p!("<qrs\"uvwxyz012'")) } else { lit("&lt;qrs&quot;uvwxyz012&#39;"); end(b, w) } } 15 => { let w = "&rstuvwxyz01234>"; if k { lit("<p id=\"&amp;rstuvwxyz01234&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = "&rstuvwxyz01234>", x)) } else { lit("&amp;rstuvwxyz01234&gt;"); end(b, w) } } 16 => { let w = "&stuvwxéz01234567"; if k { lit("&amp;stuvwxéz01234567"); esc(x); lit("&amp;stuvwxéz01234567"); end(b, frag!("&stuvwxéz01234567", x, "&stuvwxéz01234567")) } else { lit("&amp;stuvwxéz01234567"); end(b, w) } } 17 => { let w = "\"tuvw>yz012345678<"; if k { esc(x); lit(" &quot;tuvw&gt;yz012345678&lt;"); end(b, classes!(x, "\"tuvw>yz012345678<")) } else { lit("&quot;tuvw&gt;yz012345678&lt;"); end(b, w) } } 18 => { let w = "tuvwxyz&123456789a&"; if k { lit("<p a=\"&amp;a987654321&amp;zyxwvut\"><b>tuvwxyz&amp;123456789a&amp;</b></p>"); end(b, p!(b!(("tuvwxyz&123456789a&")), a = { "&a987654321&zyxwvut" })) } else { lit("tuvwxyz&amp;123456789a&amp;"); end(b, w) } } 19 => { let w = "<vw\"yz0123456789abcd"; if k { lit("<p>&lt;vw&quot;yz0123456789abcd</p>"); end(b, p!("<vw\"yz0123456789abcd")) } else { lit("&lt;vw&quot;yz0123456789abcd"); end(b, w) } } 20 => { let w = ">wxyz0123é56789ab<de>"; if k { lit("<p id=\"&gt;wxyz0123é56789ab&lt;de&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = ">wxyz0123é56789ab<de>", x)) } else { lit("&gt;wxyz0123é56789ab&lt;de&gt;"); end(b, w) } } 21 => { let w = "wxyz012345678&abcdefg\""; if k { lit("wxyz012345678&amp;abcdefg&quot;"); esc(x); lit("wxyz012345678&amp;abcdef"); end(b, frag!("wxyz012345678&abcdefg\"", x, "wxyz012345678&abcdef")) } else { lit("wxyz012345678&amp;abcdefg&quot;"); end(b, w) } } 22 => { let w = "\"yz0<23456789abcdefghij"; if k { esc(x); lit(" &quot;yz0&lt;23456789abcdefghij"); end(b, classes!(x, "\"yz0<23456789abcdefghij")) } else { lit("&quot;yz0&lt;23456789abcdefghij"); end(b, w) } } 23 => { let w = "'z0123456789ab'defghijk&"; if k { lit("<p a=\"&amp;kjihgfed&#39;ba9876543210z&#39;\"><b>&#39;z0123456789ab&#39;defghijk&amp;</b></p>"); end(b, p!(b!(("'z0123456789ab'defghijk&")), a = { "&kjihgfed'ba9876543210z'" })) } else { lit("&#39;z0123456789ab&#39;defghijk&amp;"); end(b, w) } } 24 => { let w = "z0123456789é\"cdefghijklm'"; if k { lit("<p>z0123456789é&quot;cdefghijklm&#39;</p>"); end(b, p!("z0123456789é\"cdefghijklm'")) } else { lit("z0123456789é&quot;cdefghijklm&#39;"); end(b, w) } } 25 => { let w = ">123456789abcdefghijk<mnop"; if k { lit("<p id=\"&gt;123456789abcdefghijk&lt;mnop\">"); esc(x); lit("</p>"); end(b, p!(id = ">123456789abcdefghijk<mnop", x)) } else { lit("&gt;123456789abcdefghijk&lt;mnop"); end(b, w) } } 26 => { let w = "&23456789abc>efghijklmnopq\""; if k { lit("&amp;23456789abc&gt;efghijklmnopq&quot;"); esc(x); lit("&amp;23456789abc&gt;efghijk"); end(b, frag!("&23456789abc>efghijklmnopq\"", x, "&23456789abc>efghijk")) } else { lit("&amp;23456789abc&gt;efghijklmnopq&quot;"); end(b, w) } } 27 => { let w = "23456789a\"cdefghijklmnopqrs<"; if k { esc(x); lit(" 23456789a&quot;cdefghijklmnopqrs&lt;"); end(b, classes!(x, "23456789a\"cdefghijklmnopqrs<")) } else { lit("23456789a&quot;cdefghijklmnopqrs&lt;"); end(b, w) } } 28 => { let w = "'456789abcdeféhijklmnopq<stuv"; if k { lit("<p a=\"vuts&lt;qponmlkjihéfedcba987654&#39;\"><b>&#39;456789abcdeféhijklmnopq&lt;stuv</b></p>"); end(b, p!(b!(("'456789abcdeféhijklmnopq<stuv")), a = { "vuts<qponmlkjihéfedcba987654'" })) } else { lit("&#39;456789abcdeféhijklmnopq&lt;stuv"); end(b, w) } } _ => { let w = "<56789abcdefghijklmnopqrstuv<'"; if k { lit("<p>&lt;56789abcdefghijklmnopqrstuv&lt;&#39;</p>"); end(b, p!("<56789abcdefghijklmnopqrstuv<'")) } else { lit("&lt;56789abcdefghijklmnopqrstuv&lt;&#39;"); end(b, w) } } } }
    h_22_w030(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(30) { 0 => { let w = "56<89abcdefghijklmnopqrstuvwxy>"; if k { lit("<p id=\"56&lt;89abcdefghijklmnopqrstuvwxy&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = "56<89abcdefghijklmnopqrstuvwxy>", x)) } else { lit("56&lt;89abcdefghijklmnopqrstuvwxy&gt;"); end(b, w) } } 1 => { let w = "&789abcdefghijklmno<qrstuvwxyz01"; if k { lit("&amp;789abcdefghijklmno&lt;qrstuvwxyz01"); esc(x); lit("&amp;789abcdefghijklmno&lt;"); end(b, frag!("&789abcdefghijklmno<qrstuvwxyz01", x, "&789abcdefghijklmno<")) } else { lit("&amp;789abcdefghijklmno&lt;qrstuvwxyz01"); end(b, w) } } 2 => { let w = "\"89abcdefghijklénopqrstuvwxyz012<"; if k { esc(x); lit(" &quot;89abcdefghijklénopqrstuvwxyz012&lt;"); end(b, classes!(x, "\"89abcdefghijklénopqrstuvwxyz012<")) } else { lit("&quot;89abcdefghijklénopqrstuvwxyz012&lt;"); end(b, w) } } 3 => { let w = "89abcdefghijklmnopqr>tuvwxyz01234&"; if k { lit("<p a=\"&amp;43210zyxwvut&gt;rqponmlkjihgfedcba98\"><b>89abcdefghijklmnopqr&gt;tuvwxyz01234&amp;</b></p>"); end(b, p!(b!(("89abcdefghijklmnopqr>tuvwxyz01234&")), a = { "&43210zyxwvut>rqponmlkjihgfedcba98" })) } else { lit("89abcdefghijklmnopqr&gt;tuvwxyz01234&amp;"); end(b, w) } } 4 => { let w = "<abc'efghijklmnopqrstuvwxyz01234567"; if k { lit("<p>&lt;abc&#39;efghijklmnopqrstuvwxyz01234567</p>"); end(b, p!("<abc'efghijklmnopqrstuvwxyz01234567")) } else { lit("&lt;abc&#39;efghijklmnopqrstuvwxyz01234567"); end(b, w) } } 5 => { let w = ">bcdefghijkl>nopqrstuvwxyz012345678>"; if k { lit("<p id=\"&gt;bcdefghijkl&gt;nopqrstuvwxyz012345678&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = ">bcdefghijkl>nopqrstuvwxyz012345678>", x)) } else { lit("&gt;bcdefghijkl&gt;nopqrstuvwxyz012345678&gt;"); end(b, w) } } 6 => { let w = "bcd>fghijklmnopqrétuvwxyz0123456789a\""; if k { lit("bcd&gt;fghijklmnopqrétuvwxyz0123456789a&quot;"); esc(x); lit("bcd&gt;fghijklmnopqrétu"); end(b, frag!("bcd>fghijklmnopqrétuvwxyz0123456789a\"", x, "bcd>fghijklmnopqrétu")) } else { lit("bcd&gt;fghijklmnopqrétuvwxyz0123456789a&quot;"); end(b, w) } } 7 => { let w = "\"defghijkl'nopqrstuvwxyz0123456789abcd"; if k { esc(x); lit(" &quot;defghijkl&#39;nopqrstuvwxyz0123456789abcd"); end(b, classes!(x, "\"defghijkl'nopqrstuvwxyz0123456789abcd")) } else { lit("&quot;defghijkl&#39;nopqrstuvwxyz0123456789abcd"); end(b, w) } } 8 => { let w = "'efghijklmnopqrstuvwxyz01&3456789abcde&"; if k { lit("<p a=\"&amp;edcba9876543&amp;10zyxwvutsrqponmlkjihgfe&#39;\"><b>&#39;efghijklmnopqrstuvwxyz01&amp;3456789abcde&amp;</b></p>"); end(b, p!(b!(("'efghijklmnopqrstuvwxyz01&3456789abcde&")), a = { "&edcba9876543&10zyxwvutsrqponmlkjihgfe'" })) } else { lit("&#39;efghijklmnopqrstuvwxyz01&amp;3456789abcde&amp;"); end(b, w) } } 9 => { let w = "efghijk&mnopqrstuvwxyz0123456789abcdefg'"; if k { lit("<p>efghijk&amp;mnopqrstuvwxyz0123456789abcdefg&#39;</p>"); end(b, p!("efghijk&mnopqrstuvwxyz0123456789abcdefg'")) } else { lit("efghijk&amp;mnopqrstuvwxyz0123456789abcdefg&#39;"); end(b, w) } } 10 => { let w = ">ghijklmnopqrstuvwxéz0123456'89abcdefghi&"; if k { lit("<p id=\"&gt;ghijklmnopqrstuvwxéz0123456&#39;89abcdefghi&amp;\">"); esc(x); lit("</p>"); end(b, p!(id = ">ghijklmnopqrstuvwxéz0123456'89abcdefghi&", x)) } else { lit("&gt;ghijklmnopqrstuvwxéz0123456&#39;89abcdefghi&amp;"); end(b, w) } } 11 => { let w = "&hijklmn\"pqrstuvwxyz0123456789abcdefghijk\""; if k { lit("&amp;hijklmn&quot;pqrstuvwxyz0123456789abcdefghijk&quot;"); esc(x); lit("&amp;hijklmn&quot;pqrstuvwxyz"); end(b, frag!("&hijklmn\"pqrstuvwxyz0123456789abcdefghijk\"", x, "&hijklmn\"pqrstuvwxyz")) } else { lit("&amp;hijklmn&quot;pqrstuvwxyz0123456789abcdefghijk&quot;"); end(b, w) } } 12 => { let w = "hi'klmnopqrstuvwxyz0123456789abcdefghij\"lm<"; if k { esc(x); lit(" hi&#39;klmnopqrstuvwxyz0123456789abcdefghij&quot;lm&lt;"); end(b, classes!(x, "hi'klmnopqrstuvwxyz0123456789abcdefghij\"lm<")) } else { lit("hi&#39;klmnopqrstuvwxyz0123456789abcdefghij&quot;lm&lt;"); end(b, w) } } 13 => { let w = "'jklmnopqrstuvwxyz0123456789abcdefghijklm&op"; if k { lit("<p a=\"po&amp;mlkjihgfedcba9876543210zyxwvutsrqponmlkj&#39;\"><b>&#39;jklmnopqrstuvwxyz0123456789abcdefghijklm&amp;op</b></p>"); end(b, p!(b!(("'jklmnopqrstuvwxyz0123456789abcdefghijklm&op")), a = { "po&mlkjihgfedcba9876543210zyxwvutsrqponmlkj'" })) } else { lit("&#39;jklmnopqrstuvwxyz0123456789abcdefghijklm&amp;op"); end(b, w) } } 14 => { let w = "<klmnopqrstuvwxyz0123é567<9abcdefghijklmno'q'"; if k { lit("<p>&lt;klmnopqrstuvwxyz0123é567&lt;9abcdefghijklmno&#39;q&#39;</p>"); end(b, p!("<klmnopqrstuvwxyz0123é567<9abcdefghijklmno'q'")) } else { lit("&lt;klmnopqrstuvwxyz0123é567&lt;9abcdefghijklmno&#39;q&#39;"); end(b, w) } } 15 => { let w = "klmnopqrstuvwxyz01234\"6789abcdefghijklmnopqrs>"; if k { lit("<p id=\"klmnopqrstuvwxyz01234&quot;6789abcdefghijklmnopqrs&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = "klmnopqrstuvwxyz01234\"6789abcdefghijklmnopqrs>", x)) } else { lit("klmnopqrstuvwxyz01234&quot;6789abcdefghijklmnopqrs&gt;"); end(b, w) } } 16 => { let w = "&mnopqrstuvwxy&0123456789abcdefghijk<mnopqrstuv"; if k { lit("&amp;mnopqrstuvwxy&amp;0123456789abcdefghijk&lt;mnopqrstuv"); esc(x); lit("&amp;mnopqrstuvwxy&amp;01234"); end(b, frag!("&mnopqrstuvwxy&0123456789abcdefghijk<mnopqrstuv", x, "&mnopqrstuvwxy&01234")) } else { lit("&amp;mnopqrstuvwxy&amp;0123456789abcdefghijk&lt;mnopqrstuv"); end(b, w) } } 17 => { let w = "\"nopqrstuvwxyz0123456789abcdefghijk<mnopqrstuvw<"; if k { esc(x); lit(" &quot;nopqrstuvwxyz0123456789abcdefghijk&lt;mnopqrstuvw&lt;"); end(b, classes!(x, "\"nopqrstuvwxyz0123456789abcdefghijk<mnopqrstuvw<")) } else { lit("&quot;nopqrstuvwxyz0123456789abcdefghijk&lt;mnopqrstuvw&lt;"); end(b, w) } } 18 => { let w = "nopqrstuvwxyz0123456789ébcdef<hijklm&opqrstuvwxy&"; if k { lit("<p a=\"&amp;yxwvutsrqpo&amp;mlkjih&lt;fedcbé9876543210zyxwvutsrqpon\"><b>nopqrstuvwxyz0123456789ébcdef&lt;hijklm&amp;opqrstuvwxy&amp;</b></p>"); end(b, p!(b!(("nopqrstuvwxyz0123456789ébcdef<hijklm&opqrstuvwxy&")), a = { "&yxwvutsrqpo&mlkjih<fedcbé9876543210zyxwvutsrqpon" })) } else { lit("nopqrstuvwxyz0123456789ébcdef&lt;hijklm&amp;opqrstuvwxy&amp;"); end(b, w) } } 19 => { let w = "<pqrstuvwxyz012'456789abcdefghijklmnopqrstuvwxyz01"; if k { lit("<p>&lt;pqrstuvwxyz012&#39;456789abcdefghijklmnopqrstuvwxyz01</p>"); end(b, p!("<pqrstuvwxyz012'456789abcdefghijklmnopqrstuvwxyz01")) } else { lit("&lt;pqrstuvwxyz012&#39;456789abcdefghijklmnopqrstuvwxyz01"); end(b, w) } } 20 => { let w = ">qrstuvwxyz0123456789abcdefghijklmnopqrst\"vwxyz012>"; if k { lit("<p id=\"&gt;qrstuvwxyz0123456789abcdefghijklmnopqrst&quot;vwxyz012&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = ">qrstuvwxyz0123456789abcdefghijklmnopqrst\"vwxyz012>", x)) } else { lit("&gt;qrstuvwxyz0123456789abcdefghijklmnopqrst&quot;vwxyz012&gt;"); end(b, w) } } 21 => { let w = "qrstuvwxyz01234567'9abcdefghijklmnopqrstuvwxyz01234\""; if k { lit("qrstuvwxyz01234567&#39;9abcdefghijklmnopqrstuvwxyz01234&quot;"); esc(x); lit("qrstuvwxyz01234567&#39;9"); end(b, frag!("qrstuvwxyz01234567'9abcdefghijklmnopqrstuvwxyz01234\"", x, "qrstuvwxyz01234567'9")) } else { lit("qrstuvwxyz01234567&#39;9abcdefghijklmnopqrstuvwxyz01234&quot;"); end(b, w) } } 22 => { let w = "\"stuvwxyz0123456789&bcdeféhijklm<opqrstuvwxyz01234567"; if k { esc(x); lit(" &quot;stuvwxyz0123456789&amp;bcdeféhijklm&lt;opqrstuvwxyz01234567"); end(b, classes!(x, "\"stuvwxyz0123456789&bcdeféhijklm<opqrstuvwxyz01234567")) } else { lit("&quot;stuvwxyz0123456789&amp;bcdeféhijklm&lt;opqrstuvwxyz01234567"); end(b, w) } } 23 => { let w = "'tuvwxyz0123456789abcdefghijklmnopqr\"tuvwxyz012345678&"; if k { lit("<p a=\"&amp;876543210zyxwvut&quot;rqponmlkjihgfedcba9876543210zyxwvut&#39;\"><b>&#39;tuvwxyz0123456789abcdefghijklmnopqr&quot;tuvwxyz012345678&amp;</b></p>"); end(b, p!(b!(("'tuvwxyz0123456789abcdefghijklmnopqr\"tuvwxyz012345678&")), a = { "&876543210zyxwvut\"rqponmlkjihgfedcba9876543210zyxwvut'" })) } else { lit("&#39;tuvwxyz0123456789abcdefghijklmnopqr&quot;tuvwxyz012345678&amp;"); end(b, w) } } 24 => { let w = "tuv'xyz0123456789abcdefghijklmnopqrstuvwxyz01234>6789a'"; if k { lit("<p>tuv&#39;xyz0123456789abcdefghijklmnopqrstuvwxyz01234&gt;6789a&#39;</p>"); end(b, p!("tuv'xyz0123456789abcdefghijklmnopqrstuvwxyz01234>6789a'")) } else { lit("tuv&#39;xyz0123456789abcdefghijklmnopqrstuvwxyz01234&gt;6789a&#39;"); end(b, w) } } 25 => { let w = ">vwxyz0123456789abc>efghijklmnopqrstuvwxyz0123456789abcd"; if k { lit("<p id=\"&gt;vwxyz0123456789abc&gt;efghijklmnopqrstuvwxyz0123456789abcd\">"); esc(x); lit("</p>"); end(b, p!(id = ">vwxyz0123456789abc>efghijklmnopqrstuvwxyz0123456789abcd", x)) } else { lit("&gt;vwxyz0123456789abc&gt;efghijklmnopqrstuvwxyz0123456789abcd"); end(b, w) } } 26 => { let w = "&wxyz0123456789abcdefghijklénopqrstuvw&yz0123456789abcde\""; if k { lit("&amp;wxyz0123456789abcdefghijklénopqrstuvw&amp;yz0123456789abcde&quot;"); esc(x); lit("&amp;wxyz0123456789abcde"); end(b, frag!("&wxyz0123456789abcdefghijklénopqrstuvw&yz0123456789abcde\"", x, "&wxyz0123456789abcde")) } else { lit("&amp;wxyz0123456789abcdefghijklénopqrstuvw&amp;yz0123456789abcde&quot;"); end(b, w) } } 27 => { let w = "wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a\"cdefg<"; if k { esc(x); lit(" wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a&quot;cdefg&lt;"); end(b, classes!(x, "wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a\"cdefg<")) } else { lit("wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a&quot;cdefg&lt;"); end(b, w) } } 28 => { let w = "'yz012<456789abcdefghijklmnopqrstuvwxyz012345'789abcdefghij"; if k { lit("<p a=\"jihgfedcba987&#39;543210zyxwvutsrqponmlkjihgfedcba987654&lt;210zy&#39;\"><b>&#39;yz012&lt;456789abcdefghijklmnopqrstuvwxyz012345&#39;789abcdefghij</b></p>"); end(b, p!(b!(("'yz012<456789abcdefghijklmnopqrstuvwxyz012345'789abcdefghij")), a = { "jihgfedcba987'543210zyxwvutsrqponmlkjihgfedcba987654<210zy'" })) } else { lit("&#39;yz012&lt;456789abcdefghijklmnopqrstuvwxyz012345&#39;789abcdefghij"); end(b, w) } } _ => { let w = "<z0123456789abcdefghijklmnopqrstuvwxyz>123456789abcdefghijk'"; if k { lit("<p>&lt;z0123456789abcdefghijklmnopqrstuvwxyz&gt;123456789abcdefghijk&#39;</p>"); end(b, p!("<z0123456789abcdefghijklmnopqrstuvwxyz>123456789abcdefghijk'")) } else { lit("&lt;z0123456789abcdefghijklmnopqrstuvwxyz&gt;123456789abcdefghijk&#39;"); end(b, w) } } } }
    h_22_w060(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(30) { 0 => { let w = "z01234567\"9abcdefghijklmnopqrétuvwxyz0123456789a<cdefghijklm>"; if k { lit("<p id=\"z01234567&quot;9abcdefghijklmnopqrétuvwxyz0123456789a&lt;cdefghijklm&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = "z01234567\"9abcdefghijklmnopqrétuvwxyz0123456789a<cdefghijklm>", x)) } else { lit("z01234567&quot;9abcdefghijklmnopqrétuvwxyz0123456789a&lt;cdefghijklm&gt;"); end(b, w) } } 1 => { let w = "&123456789abcdefghijklmnopqrstuvwxyz0123456789'bcdefghijklmnop"; if k { lit("&amp;123456789abcdefghijklmnopqrstuvwxyz0123456789&#39;bcdefghijklmnop"); esc(x); lit("&amp;123456789abcdefghij"); end(b, frag!("&123456789abcdefghijklmnopqrstuvwxyz0123456789'bcdefghijklmnop", x, "&123456789abcdefghij")) } else { lit("&amp;123456789abcdefghijklmnopqrstuvwxyz0123456789&#39;bcdefghijklmnop"); end(b, w) } } 2 => { let w = "\"&3\"56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq<"; if k { esc(x); lit(" &quot;&amp;3&quot;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&lt;"); end(b, classes!(x, "\"&3\"56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq<")) } else { lit("&quot;&amp;3&quot;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&lt;"); end(b, w) } } 3 => { let w = "23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl'nopqrs&"; if k { lit("<p a=\"&amp;srqpon&#39;lkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba98765432\"><b>23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl&#39;nopqrs&amp;</b></p>"); end(b, p!(b!(("23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl'nopqrs&")), a = { "&srqpon'lkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba98765432" })) } else { lit("23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl&#39;nopqrs&amp;"); end(b, w) } } 4 => { let w = "<456789abc>efghijklmnopqrstuvwxéz0123456789abcdefghijklm>opqrstuv"; if k { lit("<p>&lt;456789abc&gt;efghijklmnopqrstuvwxéz0123456789abcdefghijklm&gt;opqrstuv</p>"); end(b, p!("<456789abc>efghijklmnopqrstuvwxéz0123456789abcdefghijklm>opqrstuv")) } else { lit("&lt;456789abc&gt;efghijklmnopqrstuvwxéz0123456789abcdefghijklm&gt;opqrstuv"); end(b, w) } } 5 => { let w = ">56789abcdefghijklmnopqrstuvwxy'0123456789abcdefghijklmnopqrstuvw>"; if k { lit("<p id=\"&gt;56789abcdefghijklmnopqrstuvwxy&#39;0123456789abcdefghijklmnopqrstuvw&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = ">56789abcdefghijklmnopqrstuvwxy'0123456789abcdefghijklmnopqrstuvw>", x)) } else { lit("&gt;56789abcdefghijklmnopqrstuvwxy&#39;0123456789abcdefghijklmnopqrstuvw&gt;"); end(b, w) } } 6 => { let w = "56789abcdefgh&jklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\"tuvwxy\""; if k { lit("56789abcdefgh&amp;jklmnopqrstuvwxyz0123456789abcdefghijklmnopqr&quot;tuvwxy&quot;"); esc(x); lit("56789abcdefgh&amp;jklmno"); end(b, frag!("56789abcdefgh&jklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\"tuvwxy\"", x, "56789abcdefgh&jklmno")) } else { lit("56789abcdefgh&amp;jklmnopqrstuvwxyz0123456789abcdefghijklmnopqr&quot;tuvwxy&quot;"); end(b, w) } } 7 => { let w = "\"789abcdefghijklmnopqrstuvwx&z0123456789abcdefghijklmnopqrstuvwxyz01"; if k { esc(x); lit(" &quot;789abcdefghijklmnopqrstuvwx&amp;z0123456789abcdefghijklmnopqrstuvwxyz01"); end(b, classes!(x, "\"789abcdefghijklmnopqrstuvwx&z0123456789abcdefghijklmnopqrstuvwxyz01")) } else { lit("&quot;789abcdefghijklmnopqrstuvwx&amp;z0123456789abcdefghijklmnopqrstuvwxyz01"); end(b, w) } } 8 => { let w = "'89abcdefghi&klmnopqrst>vwxyz0123é56789abcdefghijklmnopqrstuvwxyz012&"; if k { lit("<p a=\"&amp;210zyxwvutsrqponmlkjihgfedcba98765é3210zyxwv&gt;tsrqponmlk&amp;ihgfedcba98&#39;\"><b>&#39;89abcdefghi&amp;klmnopqrst&gt;vwxyz0123é56789abcdefghijklmnopqrstuvwxyz012&amp;</b></p>"); end(b, p!(b!(("'89abcdefghi&klmnopqrst>vwxyz0123é56789abcdefghijklmnopqrstuvwxyz012&")), a = { "&210zyxwvutsrqponmlkjihgfedcba98765é3210zyxwv>tsrqponmlk&ihgfedcba98'" })) } else { lit("&#39;89abcdefghi&amp;klmnopqrst&gt;vwxyz0123é56789abcdefghijklmnopqrstuvwxyz012&amp;"); end(b, w) } } 9 => { let w = "89abcdefghijklmnopqrstuvw'yz0123456789abcdefghijklmnopqrstuvwxyz01234'"; if k { lit("<p>89abcdefghijklmnopqrstuvw&#39;yz0123456789abcdefghijklmnopqrstuvwxyz01234&#39;</p>"); end(b, p!("89abcdefghijklmnopqrstuvw'yz0123456789abcdefghijklmnopqrstuvwxyz01234'")) } else { lit("89abcdefghijklmnopqrstuvw&#39;yz0123456789abcdefghijklmnopqrstuvwxyz01234&#39;"); end(b, w) } } 10 => { let w = ">abcdefghijklmnopqrstuvwxyz0123456789abcde<ghij&lmnopqrstuvwxyz01234567"; if k { lit("<p id=\"&gt;abcdefghijklmnopqrstuvwxyz0123456789abcde&lt;ghij&amp;lmnopqrstuvwxyz01234567\">"); esc(x); lit("</p>"); end(b, p!(id = ">abcdefghijklmnopqrstuvwxyz0123456789abcde<ghij&lmnopqrstuvwxyz01234567", x)) } else { lit("&gt;abcdefghijklmnopqrstuvwxyz0123456789abcde&lt;ghij&amp;lmnopqrstuvwxyz01234567"); end(b, w) } } 11 => { let w = "&bcdefghijklmnopqrstuvwxyz012345678&abcdefghijklmnopqrstuvwxyz012345678\""; if k { lit("&amp;bcdefghijklmnopqrstuvwxyz012345678&amp;abcdefghijklmnopqrstuvwxyz012345678&quot;"); esc(x); lit("&amp;bcdefghijklmnopqrst"); end(b, frag!("&bcdefghijklmnopqrstuvwxyz012345678&abcdefghijklmnopqrstuvwxyz012345678\"", x, "&bcdefghijklmnopqrst")) } else { lit("&amp;bcdefghijklmnopqrstuvwxyz012345678&amp;abcdefghijklmnopqrstuvwxyz012345678&quot;"); end(b, w) } } 12 => { let w = "bcdefghijklmnopqrstuvwxyz01>3456789ébcdefghijklmnopqrst'vwxyz0123456789a<"; if k { esc(x); lit(" bcdefghijklmnopqrstuvwxyz01&gt;3456789ébcdefghijklmnopqrst&#39;vwxyz0123456789a&lt;"); end(b, classes!(x, "bcdefghijklmnopqrstuvwxyz01>3456789ébcdefghijklmnopqrst'vwxyz0123456789a<")) } else { lit("bcdefghijklmnopqrstuvwxyz01&gt;3456789ébcdefghijklmnopqrst&#39;vwxyz0123456789a&lt;"); end(b, w) } } 13 => { let w = "'defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\"stuvwxyz0123456789abcd"; if k { lit("<p a=\"dcba9876543210zyxwvuts&quot;qponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfed&#39;\"><b>&#39;defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&quot;stuvwxyz0123456789abcd</b></p>"); end(b, p!(b!(("'defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\"stuvwxyz0123456789abcd")), a = { "dcba9876543210zyxwvuts\"qponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfed'" })) } else { lit("&#39;defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&quot;stuvwxyz0123456789abcd"); end(b, w) } } 14 => { let w = "<efghijklmnopqrstuvwx<z01>3456789abcdefghijklmnopqrstuvwxyz0123456789abcde'"; if k { lit("<p>&lt;efghijklmnopqrstuvwx&lt;z01&gt;3456789abcdefghijklmnopqrstuvwxyz0123456789abcde&#39;</p>"); end(b, p!("<efghijklmnopqrstuvwx<z01>3456789abcdefghijklmnopqrstuvwxyz0123456789abcde'")) } else { lit("&lt;efghijklmnopqrstuvwx&lt;z01&gt;3456789abcdefghijklmnopqrstuvwxyz0123456789abcde&#39;"); end(b, w) } } 15 => { let w = "efghijklm\"opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg>"; if k { lit("<p id=\"efghijklm&quot;opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = "efghijklm\"opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg>", x)) } else { lit("efghijklm&quot;opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&gt;"); end(b, w) } } 16 => { let w = "&ghijklmnopqrstuvwxy\"0123456789abcdeféhijklmnopqrstuvwxyz0123456789'bcdefghij"; if k { lit("&amp;ghijklmnopqrstuvwxy&quot;0123456789abcdeféhijklmnopqrstuvwxyz0123456789&#39;bcdefghij"); esc(x); lit("&amp;ghijklmnopqrstuvwxy"); end(b, frag!("&ghijklmnopqrstuvwxy\"0123456789abcdeféhijklmnopqrstuvwxyz0123456789'bcdefghij", x, "&ghijklmnopqrstuvwxy")) } else { lit("&amp;ghijklmnopqrstuvwxy&quot;0123456789abcdeféhijklmnopqrstuvwxyz0123456789&#39;bcdefghij"); end(b, w) } } 17 => { let w = "\"hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&789abcdefghijk<"; if k { esc(x); lit(" &quot;hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&amp;789abcdefghijk&lt;"); end(b, classes!(x, "\"hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&789abcdefghijk<")) } else { lit("&quot;hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&amp;789abcdefghijk&lt;"); end(b, w) } } 18 => { let w = "hijklmnopqrstuvwxyz01234567>9abcdefghijklmnopqrstuvwxyz012&456789abcdefghijklm&"; if k { lit("<p a=\"&amp;mlkjihgfedcba987654&amp;210zyxwvutsrqponmlkjihgfedcba9&gt;76543210zyxwvutsrqponmlkjih\"><b>hijklmnopqrstuvwxyz01234567&gt;9abcdefghijklmnopqrstuvwxyz012&amp;456789abcdefghijklm&amp;</b></p>"); end(b, p!(b!(("hijklmnopqrstuvwxyz01234567>9abcdefghijklmnopqrstuvwxyz012&456789abcdefghijklm&")), a = { "&mlkjihgfedcba987654&210zyxwvutsrqponmlkjihgfedcba9>76543210zyxwvutsrqponmlkjih" })) } else { lit("hijklmnopqrstuvwxyz01234567&gt;9abcdefghijklmnopqrstuvwxyz012&amp;456789abcdefghijklm&amp;"); end(b, w) } } 19 => { let w = "<jklmnopqrstuvwxyz0123<56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop"; if k { lit("<p>&lt;jklmnopqrstuvwxyz0123&lt;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop</p>"); end(b, p!("<jklmnopqrstuvwxyz0123<56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop")) } else { lit("&lt;jklmnopqrstuvwxyz0123&lt;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop"); end(b, w) } } 20 => { let w = ">klmnopqrstuvwxyz01'3456789abcdefghijklénopqrstuvwx<z0123&56789abcdefghijklmnopq>"; if k { lit("<p id=\"&gt;klmnopqrstuvwxyz01&#39;3456789abcdefghijklénopqrstuvwx&lt;z0123&amp;56789abcdefghijklmnopq&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = ">klmnopqrstuvwxyz01'3456789abcdefghijklénopqrstuvwx<z0123&56789abcdefghijklmnopq>", x)) } else { lit("&gt;klmnopqrstuvwxyz01&#39;3456789abcdefghijklénopqrstuvwx&lt;z0123&amp;56789abcdefghijklmnopq&gt;"); end(b, w) } } 21 => { let w = "klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn>pqrs\""; if k { lit("klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&gt;pqrs&quot;"); esc(x); lit("klmnopqrstuvwxyz0123"); end(b, frag!("klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn>pqrs\"", x, "klmnopqrstuvwxyz0123")) } else { lit("klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&gt;pqrs&quot;"); end(b, w) } } 22 => { let w = "\"mnopqrstuvwxyz0123456>89abcdef<hijklmnopqrs'uvwxyz0123456789abcdefghijklmnopqrstuv"; if k { esc(x); lit(" &quot;mnopqrstuvwxyz0123456&gt;89abcdef&lt;hijklmnopqrs&#39;uvwxyz0123456789abcdefghijklmnopqrstuv"); end(b, classes!(x, "\"mnopqrstuvwxyz0123456>89abcdef<hijklmnopqrs'uvwxyz0123456789abcdefghijklmnopqrstuv")) } else { lit("&quot;mnopqrstuvwxyz0123456&gt;89abcdef&lt;hijklmnopqrs&#39;uvwxyz0123456789abcdefghijklmnopqrstuv"); end(b, w) } } 23 => { let w = "'nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\"defghijklmnopqrstuvw&"; if k { lit("<p a=\"&amp;wvutsrqponmlkjihgfed&quot;ba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqpon&#39;\"><b>&#39;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab&quot;defghijklmnopqrstuvw&amp;</b></p>"); end(b, p!(b!(("'nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\"defghijklmnopqrstuvw&")), a = { "&wvutsrqponmlkjihgfed\"ba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqpon'" })) } else { lit("&#39;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab&quot;defghijklmnopqrstuvw&amp;"); end(b, w) } } 24 => { let w = "nopqrstuvwxyz0123456789abcde'ghijklmnopqrétu&wxyz>123456789abcdefghijklmnopqrstuvwxy'"; if k { lit("<p>nopqrstuvwxyz0123456789abcde&#39;ghijklmnopqrétu&amp;wxyz&gt;123456789abcdefghijklmnopqrstuvwxy&#39;</p>"); end(b, p!("nopqrstuvwxyz0123456789abcde'ghijklmnopqrétu&wxyz>123456789abcdefghijklmnopqrstuvwxy'")) } else { lit("nopqrstuvwxyz0123456789abcde&#39;ghijklmnopqrétu&amp;wxyz&gt;123456789abcdefghijklmnopqrstuvwxy&#39;"); end(b, w) } } 25 => { let w = ">pqrstuvwxyz0123456789abcdefghijklm'opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01"; if k { lit("<p id=\"&gt;pqrstuvwxyz0123456789abcdefghijklm&#39;opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01\">"); esc(x); lit("</p>"); end(b, p!(id = ">pqrstuvwxyz0123456789abcdefghijklm'opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01", x)) } else { lit("&gt;pqrstuvwxyz0123456789abcdefghijklm&#39;opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01"); end(b, w) } } 26 => { let w = "&qrstuv\"xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\"opqrstuvwxyz0<2\""; if k { lit("&amp;qrstuv&quot;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&quot;opqrstuvwxyz0&lt;2&quot;"); esc(x); lit("&amp;qrstuv&quot;xyz012345678"); end(b, frag!("&qrstuv\"xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\"opqrstuvwxyz0<2\"", x, "&qrstuv\"xyz012345678")) } else { lit("&amp;qrstuv&quot;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&quot;opqrstuvwxyz0&lt;2&quot;"); end(b, w) } } 27 => { let w = "qrstuvwxyz0123456789abcdefghijklmnopqrstuvw>yz0123456789abcdefghijklmnopqrstuvwxyz01234<"; if k { esc(x); lit(" qrstuvwxyz0123456789abcdefghijklmnopqrstuvw&gt;yz0123456789abcdefghijklmnopqrstuvwxyz01234&lt;"); end(b, classes!(x, "qrstuvwxyz0123456789abcdefghijklmnopqrstuvw>yz0123456789abcdefghijklmnopqrstuvwxyz01234<")) } else { lit("qrstuvwxyz0123456789abcdefghijklmnopqrstuvw&gt;yz0123456789abcdefghijklmnopqrstuvwxyz01234&lt;"); end(b, w) } } 28 => { let w = "''tuvwxyz0123456789abcdefghijklmnopqrstuvwxéz0123456789abcdefghi&klm<opqrstuvwxyz01234567"; if k { lit("<p a=\"76543210zyxwvutsrqpo&lt;mlk&amp;ihgfedcba9876543210zéxwvutsrqponmlkjihgfedcba9876543210zyxwvut&#39;&#39;\"><b>&#39;&#39;tuvwxyz0123456789abcdefghijklmnopqrstuvwxéz0123456789abcdefghi&amp;klm&lt;opqrstuvwxyz01234567</b></p>"); end(b, p!(b!(("''tuvwxyz0123456789abcdefghijklmnopqrstuvwxéz0123456789abcdefghi&klm<opqrstuvwxyz01234567")), a = { "76543210zyxwvutsrqpo<mlk&ihgfedcba9876543210zéxwvutsrqponmlkjihgfedcba9876543210zyxwvut''" })) } else { lit("&#39;&#39;tuvwxyz0123456789abcdefghijklmnopqrstuvwxéz0123456789abcdefghi&amp;klm&lt;opqrstuvwxyz01234567"); end(b, w) } } _ => { let w = "<tuvwxy>0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678'"; if k { lit("<p>&lt;tuvwxy&gt;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&#39;</p>"); end(b, p!("<tuvwxy>0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678'")) } else { lit("&lt;tuvwxy&gt;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&#39;"); end(b, w) } } } }
    h_22_w090(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(30) { 0 => { let w = "tuvw\"yz0123456789abcdefghijklmn&pqrstuvwxyz0123456789abcdefghijklmnopqr\"tuvwxyz0123456789a>"; if k { lit("<p id=\"tuvw&quot;yz0123456789abcdefghijklmn&amp;pqrstuvwxyz0123456789abcdefghijklmnopqr&quot;tuvwxyz0123456789a&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = "tuvw\"yz0123456789abcdefghijklmn&pqrstuvwxyz0123456789abcdefghijklmnopqr\"tuvwxyz0123456789a>", x)) } else { lit("tuvw&quot;yz0123456789abcdefghijklmn&amp;pqrstuvwxyz0123456789abcdefghijklmnopqr&quot;tuvwxyz0123456789a&gt;"); end(b, w) } } 1 => { let w = "&vwxyz0123456789abcdefghijklmnopqrstuvwxyz0<23456789abcdefghijklmnopqrstuvwxyz0123456789abcd"; if k { lit("&amp;vwxyz0123456789abcdefghijklmnopqrstuvwxyz0&lt;23456789abcdefghijklmnopqrstuvwxyz0123456789abcd"); esc(x); lit("&amp;vwxyz0123456789abcd"); end(b, frag!("&vwxyz0123456789abcdefghijklmnopqrstuvwxyz0<23456789abcdefghijklmnopqrstuvwxyz0123456789abcd", x, "&vwxyz0123456789abcd")) } else { lit("&amp;vwxyz0123456789abcdefghijklmnopqrstuvwxyz0&lt;23456789abcdefghijklmnopqrstuvwxyz0123456789abcd"); end(b, w) } } 2 => { let w = "\"wxyz0123456789abcdefghijklmnopq\"stuvwxyz0123é56789a\"cdefghijklm>opqrstuvwxyz0123456789abcde<"; if k { esc(x); lit(" &quot;wxyz0123456789abcdefghijklmnopq&quot;stuvwxyz0123é56789a&quot;cdefghijklm&gt;opqrstuvwxyz0123456789abcde&lt;"); end(b, classes!(x, "\"wxyz0123456789abcdefghijklmnopq\"stuvwxyz0123é56789a\"cdefghijklm>opqrstuvwxyz0123456789abcde<")) } else { lit("&quot;wxyz0123456789abcdefghijklmnopq&quot;stuvwxyz0123é56789a&quot;cdefghijklm&gt;opqrstuvwxyz0123456789abcde&lt;"); end(b, w) } } 3 => { let w = "wxyz0123456789abcdefghijklmn>pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&"; if k { lit("<p a=\"&amp;gfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqp&gt;nmlkjihgfedcba9876543210zyxw\"><b>wxyz0123456789abcdefghijklmn&gt;pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&amp;</b></p>"); end(b, p!(b!(("wxyz0123456789abcdefghijklmn>pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&")), a = { "&gfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqp>nmlkjihgfedcba9876543210zyxw" })) } else { lit("wxyz0123456789abcdefghijklmn&gt;pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&amp;"); end(b, w) } } 4 => { let w = "<yz0&23456789abcdefghijklmnopqrst\"vwxyz012345>789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij"; if k { lit("<p>&lt;yz0&amp;23456789abcdefghijklmnopqrst&quot;vwxyz012345&gt;789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij</p>"); end(b, p!("<yz0&23456789abcdefghijklmnopqrst\"vwxyz012345>789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij")) } else { lit("&lt;yz0&amp;23456789abcdefghijklmnopqrst&quot;vwxyz012345&gt;789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij"); end(b, w) } } 5 => { let w = ">z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij'>"; if k { lit("<p id=\"&gt;z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&#39;&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = ">z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij'>", x)) } else { lit("&gt;z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&#39;&gt;"); end(b, w) } } 6 => { let w = "z0123456789abcdefghijklmnopqrstuvwxyz0123456789ébcdefghij<lmnopqrstuvwxyz01&3456789a>cdefghijklm\""; if k { lit("z0123456789abcdefghijklmnopqrstuvwxyz0123456789ébcdefghij&lt;lmnopqrstuvwxyz01&amp;3456789a&gt;cdefghijklm&quot;"); esc(x); lit("z0123456789abcdefghi"); end(b, frag!("z0123456789abcdefghijklmnopqrstuvwxyz0123456789ébcdefghij<lmnopqrstuvwxyz01&3456789a>cdefghijklm\"", x, "z0123456789abcdefghi")) } else { lit("z0123456789abcdefghijklmnopqrstuvwxyz0123456789ébcdefghij&lt;lmnopqrstuvwxyz01&amp;3456789a&gt;cdefghijklm&quot;"); end(b, w) } } 7 => { let w = "\"123456789abcdefghijklmnopq&stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop"; if k { esc(x); lit(" &quot;123456789abcdefghijklmnopq&amp;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop"); end(b, classes!(x, "\"123456789abcdefghijklmnopq&stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop")) } else { lit("&quot;123456789abcdefghijklmnopq&amp;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop"); end(b, w) } } 8 => { let w = "'23456789abcdefghijklmnopqrstuvwxyz0&23456789abcdefghijklmno&qrstuvwxyz012\"456789abcdefghijklmnopq&"; if k { lit("<p a=\"&amp;qponmlkjihgfedcba987654&quot;210zyxwvutsrq&amp;onmlkjihgfedcba98765432&amp;0zyxwvutsrqponmlkjihgfedcba98765432&#39;\"><b>&#39;23456789abcdefghijklmnopqrstuvwxyz0&amp;23456789abcdefghijklmno&amp;qrstuvwxyz012&quot;456789abcdefghijklmnopq&amp;</b></p>"); end(b, p!(b!(("'23456789abcdefghijklmnopqrstuvwxyz0&23456789abcdefghijklmno&qrstuvwxyz012\"456789abcdefghijklmnopq&")), a = { "&qponmlkjihgfedcba987654\"210zyxwvutsrq&onmlkjihgfedcba98765432&0zyxwvutsrqponmlkjihgfedcba98765432'" })) } else { lit("&#39;23456789abcdefghijklmnopqrstuvwxyz0&amp;23456789abcdefghijklmno&amp;qrstuvwxyz012&quot;456789abcdefghijklmnopq&amp;"); end(b, w) } } 9 => { let w = "23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234>6789abcdefghijklmnopqrs'"; if k { lit("<p>23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&gt;6789abcdefghijklmnopqrs&#39;</p>"); end(b, p!("23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234>6789abcdefghijklmnopqrs'")) } else { lit("23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&gt;6789abcdefghijklmnopqrs&#39;"); end(b, w) } } 10 => { let w = ">456789abcdefghijklmnopqrstuvwxyz01234567\"9ab>deféhijklmnopqrstuvwxyz0123456789abc>efghijklmnopqrstuv"; if k { lit("<p id=\"&gt;456789abcdefghijklmnopqrstuvwxyz01234567&quot;9ab&gt;deféhijklmnopqrstuvwxyz0123456789abc&gt;efghijklmnopqrstuv\">"); esc(x); lit("</p>"); end(b, p!(id = ">456789abcdefghijklmnopqrstuvwxyz01234567\"9ab>deféhijklmnopqrstuvwxyz0123456789abc>efghijklmnopqrstuv", x)) } else { lit("&gt;456789abcdefghijklmnopqrstuvwxyz01234567&quot;9ab&gt;deféhijklmnopqrstuvwxyz0123456789abc&gt;efghijklmnopqrstuv"); end(b, w) } } 11 => { let w = "&56789abcdefghijklmnopqrstuvwxyz0123456789a>cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\""; if k { lit("&amp;56789abcdefghijklmnopqrstuvwxyz0123456789a&gt;cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&quot;"); esc(x); lit("&amp;56789abcdefghijklmn"); end(b, frag!("&56789abcdefghijklmnopqrstuvwxyz0123456789a>cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\"", x, "&56789abcdefghijklmn")) } else { lit("&amp;56789abcdefghijklmnopqrstuvwxyz0123456789a&gt;cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&quot;"); end(b, w) } } 12 => { let w = "56789abcd\"fghijkl>nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\"tuvwxy<"; if k { esc(x); lit(" 56789abcd&quot;fghijkl&gt;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr&quot;tuvwxy&lt;"); end(b, classes!(x, "56789abcd\"fghijkl>nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\"tuvwxy<")) } else { lit("56789abcd&quot;fghijkl&gt;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr&quot;tuvwxy&lt;"); end(b, w) } } 13 => { let w = "'789abcdefghijklmnopqrs>uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01"; if k { lit("<p a=\"10zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvu&gt;srqponmlkjihgfedcba987&#39;\"><b>&#39;789abcdefghijklmnopqrs&gt;uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01</b></p>"); end(b, p!(b!(("'789abcdefghijklmnopqrs>uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01")), a = { "10zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvu>srqponmlkjihgfedcba987'" })) } else { lit("&#39;789abcdefghijklmnopqrs&gt;uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01"); end(b, w) } } 14 => { let w = "<89abcdefg>ijklm>opqrstuvwxyz0123456789abcdefg'ijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012'"; if k { lit("<p>&lt;89abcdefg&gt;ijklm&gt;opqrstuvwxyz0123456789abcdefg&#39;ijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012&#39;</p>"); end(b, p!("<89abcdefg>ijklm>opqrstuvwxyz0123456789abcdefg'ijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012'")) } else { lit("&lt;89abcdefg&gt;ijklm&gt;opqrstuvwxyz0123456789abcdefg&#39;ijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012&#39;"); end(b, w) } } 15 => { let w = "89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&"; if k { lit("<p id=\"89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&amp;\">"); esc(x); lit("</p>"); end(b, p!(id = "89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&", x)) } else { lit("89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&amp;"); end(b, w) } } 16 => { let w = "&abcde>ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc'efghijklmnopqrstuvw\"yz01234567"; if k { lit("&amp;abcde&gt;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc&#39;efghijklmnopqrstuvw&quot;yz01234567"); esc(x); lit("&amp;abcde&gt;ghijklmnopqrs"); end(b, frag!("&abcde>ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc'efghijklmnopqrstuvw\"yz01234567", x, "&abcde>ghijklmnopqrs")) } else { lit("&amp;abcde&gt;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc&#39;efghijklmnopqrstuvw&quot;yz01234567"); end(b, w) } } 17 => { let w = "\"bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\"678<"; if k { esc(x); lit(" &quot;bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&quot;678&lt;"); end(b, classes!(x, "\"bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\"678<")) } else { lit("&quot;bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&quot;678&lt;"); end(b, w) } } 18 => { let w = "b>defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&étuvwxyz0123456789abcdef\"hijklmnopqrstuvwxyz0123456789a&"; if k { lit("<p a=\"&amp;a9876543210zyxwvutsrqponmlkjih&quot;fedcba9876543210zyxwvuté&amp;qponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfed&gt;b\"><b>b&gt;defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&amp;étuvwxyz0123456789abcdef&quot;hijklmnopqrstuvwxyz0123456789a&amp;</b></p>"); end(b, p!(b!(("b>defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&étuvwxyz0123456789abcdef\"hijklmnopqrstuvwxyz0123456789a&")), a = { "&a9876543210zyxwvutsrqponmlkjih\"fedcba9876543210zyxwvuté&qponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfed>b" })) } else { lit("b&gt;defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&amp;étuvwxyz0123456789abcdef&quot;hijklmnopqrstuvwxyz0123456789a&amp;"); end(b, w) } } 19 => { let w = "<defghijklmnopqrstuvwxyz0123456789abcdefghijklmnop&rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd"; if k { lit("<p>&lt;defghijklmnopqrstuvwxyz0123456789abcdefghijklmnop&amp;rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd</p>"); end(b, p!("<defghijklmnopqrstuvwxyz0123456789abcdefghijklmnop&rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd")) } else { lit("&lt;defghijklmnopqrstuvwxyz0123456789abcdefghijklmnop&amp;rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd"); end(b, w) } } 20 => { let w = ">efghijkl>nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz>1234567&9abcde>"; if k { lit("<p id=\"&gt;efghijkl&gt;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz&gt;1234567&amp;9abcde&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = ">efghijkl>nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz>1234567&9abcde>", x)) } else { lit("&gt;efghijkl&gt;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz&gt;1234567&amp;9abcde&gt;"); end(b, w) } } 21 => { let w = "efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&ijklmnopqrstuvwxyz0123456789abcdefg\""; if k { lit("efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&amp;ijklmnopqrstuvwxyz0123456789abcdefg&quot;"); esc(x); lit("efghijklmnopqrstuvwx"); end(b, frag!("efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&ijklmnopqrstuvwxyz0123456789abcdefg\"", x, "efghijklmnopqrstuvwx")) } else { lit("efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&amp;ijklmnopqrstuvwxyz0123456789abcdefg&quot;"); end(b, w) } } 22 => { let w = "\"ghijklmnopqrstuvwxyz0123456789&bcdefghijklmnopqrstuvwxéz0<23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh>j"; if k { esc(x); lit(" &quot;ghijklmnopqrstuvwxyz0123456789&amp;bcdefghijklmnopqrstuvwxéz0&lt;23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh&gt;j"); end(b, classes!(x, "\"ghijklmnopqrstuvwxyz0123456789&bcdefghijklmnopqrstuvwxéz0<23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh>j")) } else { lit("&quot;ghijklmnopqrstuvwxyz0123456789&amp;bcdefghijklmnopqrstuvwxéz0&lt;23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh&gt;j"); end(b, w) } } 23 => { let w = "'hijklmnopqrstuvwxyz0123456789abcdefghijk\"mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&"; if k { lit("<p a=\"&amp;kjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponm&quot;kjihgfedcba9876543210zyxwvutsrqponmlkjih&#39;\"><b>&#39;hijklmnopqrstuvwxyz0123456789abcdefghijk&quot;mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&amp;</b></p>"); end(b, p!(b!(("'hijklmnopqrstuvwxyz0123456789abcdefghijk\"mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&")), a = { "&kjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponm\"kjihgfedcba9876543210zyxwvutsrqponmlkjih'" })) } else { lit("&#39;hijklmnopqrstuvwxyz0123456789abcdefghijk&quot;mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&amp;"); end(b, w) } } 24 => { let w = "hijklmnopqrstuv'xyz0123456789abcdefgh>jklmnopqrstuvwxyz0123456789<bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm'"; if k { lit("<p>hijklmnopqrstuv&#39;xyz0123456789abcdefgh&gt;jklmnopqrstuvwxyz0123456789&lt;bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&#39;</p>"); end(b, p!("hijklmnopqrstuv'xyz0123456789abcdefgh>jklmnopqrstuvwxyz0123456789<bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm'")) } else { lit("hijklmnopqrstuv&#39;xyz0123456789abcdefgh&gt;jklmnopqrstuvwxyz0123456789&lt;bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&#39;"); end(b, w) } } 25 => { let w = ">jklmnopqrstuvwxyz0123456789abcdefghijklmnop<rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop"; if k { lit("<p id=\"&gt;jklmnopqrstuvwxyz0123456789abcdefghijklmnop&lt;rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop\">"); esc(x); lit("</p>"); end(b, p!(id = ">jklmnopqrstuvwxyz0123456789abcdefghijklmnop<rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop", x)) } else { lit("&gt;jklmnopqrstuvwxyz0123456789abcdefghijklmnop&lt;rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop"); end(b, w) } } 26 => { let w = "&klmnopqrstu\"wxyz0123456789abcde<ghijklmnopqr\"tuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\""; if k { lit("&amp;klmnopqrstu&quot;wxyz0123456789abcde&lt;ghijklmnopqr&quot;tuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&quot;"); esc(x); lit("&amp;klmnopqrstu&quot;wxyz012"); end(b, frag!("&klmnopqrstu\"wxyz0123456789abcde<ghijklmnopqr\"tuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\"", x, "&klmnopqrstu\"wxyz012")) } else { lit("&amp;klmnopqrstu&quot;wxyz0123456789abcde&lt;ghijklmnopqr&quot;tuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&quot;"); end(b, w) } } 27 => { let w = "klmnopqrstuvwxyz0123456789abcdefghijklmno'qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs<"; if k { esc(x); lit(" klmnopqrstuvwxyz0123456789abcdefghijklmno&#39;qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs&lt;"); end(b, classes!(x, "klmnopqrstuvwxyz0123456789abcdefghijklmno'qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs<")) } else { lit("klmnopqrstuvwxyz0123456789abcdefghijklmno&#39;qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs&lt;"); end(b, w) } } 28 => { let w = "'mnopqrs>uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu<wxy<0123456789abcdefghijklmnopqrstuv"; if k { lit("<p a=\"vutsrqponmlkjihgfedcba9876543210&lt;yxw&lt;utsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvu&gt;srqponm&#39;\"><b>&#39;mnopqrs&gt;uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu&lt;wxy&lt;0123456789abcdefghijklmnopqrstuv</b></p>"); end(b, p!(b!(("'mnopqrs>uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu<wxy<0123456789abcdefghijklmnopqrstuv")), a = { "vutsrqponmlkjihgfedcba9876543210<yxw<utsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvu>srqponm'" })) } else { lit("&#39;mnopqrs&gt;uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu&lt;wxy&lt;0123456789abcdefghijklmnopqrstuv"); end(b, w) } } _ => { let w = "<nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw<"; if k { lit("<p>&lt;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&lt;</p>"); end(b, p!("<nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw<")) } else { lit("&lt;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&lt;"); end(b, w) } } } }
    h_22_w120(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(30) { 0 => { let w = "nopqrstuvwxyz0<23456789abcdefghijklmnopqr>tuv'xyz0123456789ébcdefghijklmnopqrst&vwxyz0123456789abcdefghijklmnopqrstuvwxy>"; if k { lit("<p id=\"nopqrstuvwxyz0&lt;23456789abcdefghijklmnopqr&gt;tuv&#39;xyz0123456789ébcdefghijklmnopqrst&amp;vwxyz0123456789abcdefghijklmnopqrstuvwxy&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = "nopqrstuvwxyz0<23456789abcdefghijklmnopqr>tuv'xyz0123456789ébcdefghijklmnopqrst&vwxyz0123456789abcdefghijklmnopqrstuvwxy>", x)) } else { lit("nopqrstuvwxyz0&lt;23456789abcdefghijklmnopqr&gt;tuv&#39;xyz0123456789ébcdefghijklmnopqrst&amp;vwxyz0123456789abcdefghijklmnopqrstuvwxy&gt;"); end(b, w) } } 1 => { let w = "&pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi\"klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01"; if k { lit("&amp;pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi&quot;klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01"); esc(x); lit("&amp;pqrstuvwxyz01234567"); end(b, frag!("&pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi\"klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01", x, "&pqrstuvwxyz01234567")) } else { lit("&amp;pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi&quot;klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01"); end(b, w) } } 2 => { let w = "\"qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy>0123456789abcdefg>ijklmnopqrstuvwxyz0123456789abcdef&hijklm>opqrstuvwxyz012<"; if k { esc(x); lit(" &quot;qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy&gt;0123456789abcdefg&gt;ijklmnopqrstuvwxyz0123456789abcdef&amp;hijklm&gt;opqrstuvwxyz012&lt;"); end(b, classes!(x, "\"qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy>0123456789abcdefg>ijklmnopqrstuvwxyz0123456789abcdef&hijklm>opqrstuvwxyz012<")) } else { lit("&quot;qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy&gt;0123456789abcdefg&gt;ijklmnopqrstuvwxyz0123456789abcdef&amp;hijklm&gt;opqrstuvwxyz012&lt;"); end(b, w) } } 3 => { let w = "qrs\"uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&"; if k { lit("<p a=\"&amp;43210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvu&quot;srq\"><b>qrs&quot;uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&amp;</b></p>"); end(b, p!(b!(("qrs\"uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&")), a = { "&43210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvu\"srq" })) } else { lit("qrs&quot;uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&amp;"); end(b, w) } } 4 => { let w = "<stuvwxy<0123456'89abcdefghijklmnopqrstuvwxyz0123456789abcdeféhij&lmnopq&stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567"; if k { lit("<p>&lt;stuvwxy&lt;0123456&#39;89abcdefghijklmnopqrstuvwxyz0123456789abcdeféhij&amp;lmnopq&amp;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567</p>"); end(b, p!("<stuvwxy<0123456'89abcdefghijklmnopqrstuvwxyz0123456789abcdeféhij&lmnopq&stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567")) } else { lit("&lt;stuvwxy&lt;0123456&#39;89abcdefghijklmnopqrstuvwxyz0123456789abcdeféhij&amp;lmnopq&amp;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567"); end(b, w) } } 5 => { let w = ">tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx&z0123456789abcdefghijklmnopqrstuvwxyz012345678>"; if k { lit("<p id=\"&gt;tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx&amp;z0123456789abcdefghijklmnopqrstuvwxyz012345678&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = ">tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx&z0123456789abcdefghijklmnopqrstuvwxyz012345678>", x)) } else { lit("&gt;tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx&amp;z0123456789abcdefghijklmnopqrstuvwxyz012345678&gt;"); end(b, w) } } 6 => { let w = "tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc&efghijklmnopqrs'>vwxyz0123&56789a\""; if k { lit("tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc&amp;efghijklmnopqrs&#39;&gt;vwxyz0123&amp;56789a&quot;"); esc(x); lit("tuvwxyz0123456789abc"); end(b, frag!("tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc&efghijklmnopqrs'>vwxyz0123&56789a\"", x, "tuvwxyz0123456789abc")) } else { lit("tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc&amp;efghijklmnopqrs&#39;&gt;vwxyz0123&amp;56789a&quot;"); end(b, w) } } 7 => { let w = "\"vwxyz0123456&89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd"; if k { esc(x); lit(" &quot;vwxyz0123456&amp;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd"); end(b, classes!(x, "\"vwxyz0123456&89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd")) } else { lit("&quot;vwxyz0123456&amp;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd"); end(b, w) } } 8 => { let w = "'wxyz0123456789\"bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopq&stuvwxyz0123456789abcdefghijklmn&pqrs'uvwxyz0123456789abcde&"; if k { lit("<p a=\"&amp;edcba9876543210zyxwvu&#39;srqp&amp;nmlkjihgfedcba9876543210zyxwvuts&amp;qponélkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcb&quot;9876543210zyxw&#39;\"><b>&#39;wxyz0123456789&quot;bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopq&amp;stuvwxyz0123456789abcdefghijklmn&amp;pqrs&#39;uvwxyz0123456789abcde&amp;</b></p>"); end(b, p!(b!(("'wxyz0123456789\"bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopq&stuvwxyz0123456789abcdefghijklmn&pqrs'uvwxyz0123456789abcde&")), a = { "&edcba9876543210zyxwvu'srqp&nmlkjihgfedcba9876543210zyxwvuts&qponélkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcb\"9876543210zyxw'" })) } else { lit("&#39;wxyz0123456789&quot;bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopq&amp;stuvwxyz0123456789abcdefghijklmn&amp;pqrs&#39;uvwxyz0123456789abcde&amp;"); end(b, w) } } 9 => { let w = "wxyz0123456789abcdefghijklmnopqrstuvwxyz0123'56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg'"; if k { lit("<p>wxyz0123456789abcdefghijklmnopqrstuvwxyz0123&#39;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&#39;</p>"); end(b, p!("wxyz0123456789abcdefghijklmnopqrstuvwxyz0123'56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg'")) } else { lit("wxyz0123456789abcdefghijklmnopqrstuvwxyz0123&#39;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&#39;"); end(b, w) } } 10 => { let w = ">yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx>z0123<56789'bc\"efghijklmnopqrstuvwxyz0123456789abcdefghij"; if k { lit("<p id=\"&gt;yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx&gt;z0123&lt;56789&#39;bc&quot;efghijklmnopqrstuvwxyz0123456789abcdefghij\">"); esc(x); lit("</p>"); end(b, p!(id = ">yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx>z0123<56789'bc\"efghijklmnopqrstuvwxyz0123456789abcdefghij", x)) } else { lit("&gt;yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx&gt;z0123&lt;56789&#39;bc&quot;efghijklmnopqrstuvwxyz0123456789abcdefghij"); end(b, w) } } 11 => { let w = "&z0123456789abcdefghij&lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\""; if k { lit("&amp;z0123456789abcdefghij&amp;lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&quot;"); esc(x); lit("&amp;z0123456789abcdefgh"); end(b, frag!("&z0123456789abcdefghij&lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk\"", x, "&z0123456789abcdefgh")) } else { lit("&amp;z0123456789abcdefghij&amp;lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&quot;"); end(b, w) } } 12 => { let w = "z0123456789abcdefghijklmn>pqrstuvwxyz0123456789abcdefghijkl&\"opqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm'"; if k { esc(x); lit(" z0123456789abcdefghijklmn&gt;pqrstuvwxyz0123456789abcdefghijkl&amp;&quot;opqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&#39;"); end(b, classes!(x, "z0123456789abcdefghijklmn>pqrstuvwxyz0123456789abcdefghijkl&\"opqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm'")) } else { lit("z0123456789abcdefghijklmn&gt;pqrstuvwxyz0123456789abcdefghijkl&amp;&quot;opqrétuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&#39;"); end(b, w) } } 13 => { let w = "'123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv\"xyz0123456789abcdefghijklmnop"; if k { lit("<p a=\"ponmlkjihgfedcba9876543210zyx&quot;vutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba987654321&#39;\"><b>&#39;123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv&quot;xyz0123456789abcdefghijklmnop</b></p>"); end(b, p!(b!(("'123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv\"xyz0123456789abcdefghijklmnop")), a = { "ponmlkjihgfedcba9876543210zyx\"vutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba987654321'" })) } else { lit("&#39;123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv&quot;xyz0123456789abcdefghijklmnop"); end(b, w) } } 14 => { let w = "<23456789abcdefghijklmnopqrstuvwxyz012345678>abcdefghijklmnopqrstuvwxyz01234\"6789abcdefghijklmnopqrstuvwx<z0123456789abcdefghijklmnopq'"; if k { lit("<p>&lt;23456789abcdefghijklmnopqrstuvwxyz012345678&gt;abcdefghijklmnopqrstuvwxyz01234&quot;6789abcdefghijklmnopqrstuvwx&lt;z0123456789abcdefghijklmnopq&#39;</p>"); end(b, p!("<23456789abcdefghijklmnopqrstuvwxyz012345678>abcdefghijklmnopqrstuvwxyz01234\"6789abcdefghijklmnopqrstuvwx<z0123456789abcdefghijklmnopq'")) } else { lit("&lt;23456789abcdefghijklmnopqrstuvwxyz012345678&gt;abcdefghijklmnopqrstuvwxyz01234&quot;6789abcdefghijklmnopqrstuvwx&lt;z0123456789abcdefghijklmnopq&#39;"); end(b, w) } } 15 => { let w = "23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\"yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs>"; if k { lit("<p id=\"23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&quot;yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = "23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\"yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs>", x)) } else { lit("23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&quot;yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs&gt;"); end(b, w) } } 16 => { let w = "&456789abcdefghijklmn'pqrstuvwxyz01234567&9abcdefghijklmnopqrs&uvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi&klmnopqrstuv"; if k { lit("&amp;456789abcdefghijklmn&#39;pqrstuvwxyz01234567&amp;9abcdefghijklmnopqrs&amp;uvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi&amp;klmnopqrstuv"); esc(x); lit("&amp;456789abcdefghijklm"); end(b, frag!("&456789abcdefghijklmn'pqrstuvwxyz01234567&9abcdefghijklmnopqrs&uvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi&klmnopqrstuv", x, "&456789abcdefghijklm")) } else { lit("&amp;456789abcdefghijklmn&#39;pqrstuvwxyz01234567&amp;9abcdefghijklmnopqrs&amp;uvwxéz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi&amp;klmnopqrstuv"); end(b, w) } } 17 => { let w = "\"56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop>rstuvwxyz0123456789abcdefghijklmnopqrstuvw<"; if k { esc(x); lit(" &quot;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop&gt;rstuvwxyz0123456789abcdefghijklmnopqrstuvw&lt;"); end(b, classes!(x, "\"56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop>rstuvwxyz0123456789abcdefghijklmnopqrstuvw<")) } else { lit("&quot;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop&gt;rstuvwxyz0123456789abcdefghijklmnopqrstuvw&lt;"); end(b, w) } } 18 => { let w = "56789abcdefghijklmnopq<stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789<bcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&mnop>rstuvwxy&"; if k { lit("<p a=\"&amp;yxwvutsr&gt;ponm&amp;kjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcb&lt;9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvuts&lt;qponmlkjihgfedcba98765\"><b>56789abcdefghijklmnopq&lt;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789&lt;bcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&amp;mnop&gt;rstuvwxy&amp;</b></p>"); end(b, p!(b!(("56789abcdefghijklmnopq<stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789<bcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&mnop>rstuvwxy&")), a = { "&yxwvutsr>ponm&kjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcb<9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvuts<qponmlkjihgfedcba98765" })) } else { lit("56789abcdefghijklmnopq&lt;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789&lt;bcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&amp;mnop&gt;rstuvwxy&amp;"); end(b, w) } } 19 => { let w = "<789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk<mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01"; if k { lit("<p>&lt;789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&lt;mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01</p>"); end(b, p!("<789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk<mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01")) } else { lit("&lt;789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&lt;mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01"); end(b, w) } } 20 => { let w = ">89abcdefghijklmnopqrstu>wxyz0123456789ab'defghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefg<ijklm'opqrstuvwxyz012>"; if k { lit("<p id=\"&gt;89abcdefghijklmnopqrstu&gt;wxyz0123456789ab&#39;defghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&lt;ijklm&#39;opqrstuvwxyz012&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = ">89abcdefghijklmnopqrstu>wxyz0123456789ab'defghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefg<ijklm'opqrstuvwxyz012>", x)) } else { lit("&gt;89abcdefghijklmnopqrstu&gt;wxyz0123456789ab&#39;defghijklmnopqrstuvwxyz0123é56789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&lt;ijklm&#39;opqrstuvwxyz012&gt;"); end(b, w) } } 21 => { let w = "89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01&3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\""; if k { lit("89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01&amp;3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&quot;"); esc(x); lit("89abcdefghijklmnopqr"); end(b, frag!("89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01&3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\"", x, "89abcdefghijklmnopqr")) } else { lit("89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01&amp;3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&quot;"); end(b, w) } } 22 => { let w = "\"abcdefghijklmnopqrstuvwxyz01234567\"9abcdefghijklmnopqrstuvwxyz0123456789abcde\"ghijklmnopqrstuvwxyz0123456789a'cdefghijklmnopqrstuvwxyz01234567"; if k { esc(x); lit(" &quot;abcdefghijklmnopqrstuvwxyz01234567&quot;9abcdefghijklmnopqrstuvwxyz0123456789abcde&quot;ghijklmnopqrstuvwxyz0123456789a&#39;cdefghijklmnopqrstuvwxyz01234567"); end(b, classes!(x, "\"abcdefghijklmnopqrstuvwxyz01234567\"9abcdefghijklmnopqrstuvwxyz0123456789abcde\"ghijklmnopqrstuvwxyz0123456789a'cdefghijklmnopqrstuvwxyz01234567")) } else { lit("&quot;abcdefghijklmnopqrstuvwxyz01234567&quot;9abcdefghijklmnopqrstuvwxyz0123456789abcde&quot;ghijklmnopqrstuvwxyz0123456789a&#39;cdefghijklmnopqrstuvwxyz01234567"); end(b, w) } } 23 => { let w = "'bcdefghijklmnopqrstuvwxy'0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&"; if k { lit("<p a=\"&amp;876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210&#39;yxwvutsrqponmlkjihgfedcb&#39;\"><b>&#39;bcdefghijklmnopqrstuvwxy&#39;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&amp;</b></p>"); end(b, p!(b!(("'bcdefghijklmnopqrstuvwxy'0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&")), a = { "&876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210'yxwvutsrqponmlkjihgfedcb'" })) } else { lit("&#39;bcdefghijklmnopqrstuvwxy&#39;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&amp;"); end(b, w) } } 24 => { let w = "bcdefghijklmnopq>stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789é'cdefghijklmnopqrstuvwxyz0123456789abcdefghi&klmnopqrstuvwx>z0123456789a'"; if k { lit("<p>bcdefghijklmnopq&gt;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789é&#39;cdefghijklmnopqrstuvwxyz0123456789abcdefghi&amp;klmnopqrstuvwx&gt;z0123456789a&#39;</p>"); end(b, p!("bcdefghijklmnopq>stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789é'cdefghijklmnopqrstuvwxyz0123456789abcdefghi&klmnopqrstuvwx>z0123456789a'")) } else { lit("bcdefghijklmnopq&gt;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789é&#39;cdefghijklmnopqrstuvwxyz0123456789abcdefghi&amp;klmnopqrstuvwx&gt;z0123456789a&#39;"); end(b, w) } } 25 => { let w = ">defghijklmnopqrstuv&xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd"; if k { lit("<p id=\"&gt;defghijklmnopqrstuv&amp;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd\">"); esc(x); lit("</p>"); end(b, p!(id = ">defghijklmnopqrstuv&xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd", x)) } else { lit("&gt;defghijklmnopqrstuv&amp;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd"); end(b, w) } } 26 => { let w = "&efghijklmnopqrstuvwxyz0123456789abcdefghijklmno\"qrstuvwxyz0123456789abcdefghijkl<nopqrstuvwxyz0&23456789abcdefghijklmnopqrstuvwxyz0123456789a&cde\""; if k { lit("&amp;efghijklmnopqrstuvwxyz0123456789abcdefghijklmno&quot;qrstuvwxyz0123456789abcdefghijkl&lt;nopqrstuvwxyz0&amp;23456789abcdefghijklmnopqrstuvwxyz0123456789a&amp;cde&quot;"); esc(x); lit("&amp;efghijklmnopqrstuvw"); end(b, frag!("&efghijklmnopqrstuvwxyz0123456789abcdefghijklmno\"qrstuvwxyz0123456789abcdefghijkl<nopqrstuvwxyz0&23456789abcdefghijklmnopqrstuvwxyz0123456789a&cde\"", x, "&efghijklmnopqrstuvw")) } else { lit("&amp;efghijklmnopqrstuvwxyz0123456789abcdefghijklmno&quot;qrstuvwxyz0123456789abcdefghijkl&lt;nopqrstuvwxyz0&amp;23456789abcdefghijklmnopqrstuvwxyz0123456789a&amp;cde&quot;"); end(b, w) } } 27 => { let w = "efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst<vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg<"; if k { esc(x); lit(" efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst&lt;vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&lt;"); end(b, classes!(x, "efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst<vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg<")) } else { lit("efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst&lt;vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&lt;"); end(b, w) } } 28 => { let w = "'ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123'56789abc<efghijklmnopqrstu'&xyz0123456789abcdefghij"; if k { lit("<p a=\"jihgfedcba9876543210zyx&amp;&#39;utsrqponmlkjihgfe&lt;cba98765&#39;3210zyxwvutsrqponmlkjihéfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihg&#39;\"><b>&#39;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123&#39;56789abc&lt;efghijklmnopqrstu&#39;&amp;xyz0123456789abcdefghij</b></p>"); end(b, p!(b!(("'ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123'56789abc<efghijklmnopqrstu'&xyz0123456789abcdefghij")), a = { "jihgfedcba9876543210zyx&'utsrqponmlkjihgfe<cba98765'3210zyxwvutsrqponmlkjihéfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihg'" })) } else { lit("&#39;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdeféhijklmnopqrstuvwxyz0123&#39;56789abc&lt;efghijklmnopqrstu&#39;&amp;xyz0123456789abcdefghij"); end(b, w) } } _ => { let w = "'qrstuv&xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde'ghi\"k'mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012&"; if k { lit("<p a=\"&amp;210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponm&#39;k&quot;ihg&#39;edcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyx&amp;vutsrq&#39;\"><b>&#39;qrstuv&amp;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde&#39;ghi&quot;k&#39;mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012&amp;</b></p>"); end(b, p!(b!(("'qrstuv&xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde'ghi\"k'mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012&")), a = { "&210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponm'k\"ihg'edcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyx&vutsrq'" })) } else { lit("&#39;qrstuv&amp;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde&#39;ghi&quot;k&#39;mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012&amp;"); end(b, w) } } } }
    h_22_w150(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(6) { 0 => { let w = "qrstuvwxyz0123456789abcdefghijklmnop>rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234'"; if k { lit("<p>qrstuvwxyz0123456789abcdefghijklmnop&gt;rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&#39;</p>"); end(b, p!("qrstuvwxyz0123456789abcdefghijklmnop>rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234'")) } else { lit("qrstuvwxyz0123456789abcdefghijklmnop&gt;rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&#39;"); end(b, w) } } 1 => { let w = ">stuvwxyz0123456789ab&def&hijklmnopqrstuvwxyz01234567\"9ab<defghijklmnopqrstuvwxéz0123456789abcd>fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567"; if k { lit("<p id=\"&gt;stuvwxyz0123456789ab&amp;def&amp;hijklmnopqrstuvwxyz01234567&quot;9ab&lt;defghijklmnopqrstuvwxéz0123456789abcd&gt;fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\">"); esc(x); lit("</p>"); end(b, p!(id = ">stuvwxyz0123456789ab&def&hijklmnopqrstuvwxyz01234567\"9ab<defghijklmnopqrstuvwxéz0123456789abcd>fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567", x)) } else { lit("&gt;stuvwxyz0123456789ab&amp;def&amp;hijklmnopqrstuvwxyz01234567&quot;9ab&lt;defghijklmnopqrstuvwxéz0123456789abcd&gt;fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567"); end(b, w) } } 2 => { let w = ">mnopqrstuvwxyz0123456&89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef>hij'lmnopqrstuvwxyz012345'789abcdefghijklmnopqrstuvwxyz0123456789abcde<ghijklmnopqrstuv"; if k { lit("<p id=\"&gt;mnopqrstuvwxyz0123456&amp;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef&gt;hij&#39;lmnopqrstuvwxyz012345&#39;789abcdefghijklmnopqrstuvwxyz0123456789abcde&lt;ghijklmnopqrstuv\">"); esc(x); lit("</p>"); end(b, p!(id = ">mnopqrstuvwxyz0123456&89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef>hij'lmnopqrstuvwxyz012345'789abcdefghijklmnopqrstuvwxyz0123456789abcde<ghijklmnopqrstuv", x)) } else { lit("&gt;mnopqrstuvwxyz0123456&amp;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef&gt;hij&#39;lmnopqrstuvwxyz012345&#39;789abcdefghijklmnopqrstuvwxyz0123456789abcde&lt;ghijklmnopqrstuv"); end(b, w) } } 3 => { let w = "&nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst'vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\""; if k { lit("&amp;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst&#39;vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&quot;"); esc(x); lit("&amp;nopqrstuvwxyz012345"); end(b, frag!("&nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst'vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\"", x, "&nopqrstuvwxyz012345")) } else { lit("&amp;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst&#39;vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&quot;"); end(b, w) } } 4 => { let w = "nopqrstuvwxyz01234<6789abcdefghi>klmnopqrstuvwxyz0123456789abcdefg>ijklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz012345>789abcdef>hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy<"; if k { esc(x); lit(" nopqrstuvwxyz01234&lt;6789abcdefghi&gt;klmnopqrstuvwxyz0123456789abcdefg&gt;ijklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz012345&gt;789abcdef&gt;hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy&lt;"); end(b, classes!(x, "nopqrstuvwxyz01234<6789abcdefghi>klmnopqrstuvwxyz0123456789abcdefg>ijklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz012345>789abcdef>hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy<")) } else { lit("nopqrstuvwxyz01234&lt;6789abcdefghi&gt;klmnopqrstuvwxyz0123456789abcdefg&gt;ijklmnopqrstuvwxyz0123456789ébcdefghijklmnopqrstuvwxyz012345&gt;789abcdef&gt;hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy&lt;"); end(b, w) } } _ => { let w = "<vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij'lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd"; if k { lit("<p>&lt;vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&#39;lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd</p>"); end(b, p!("<vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij'lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd")) } else { lit("&lt;vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&#39;lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd"); end(b, w) } } } }
    h_22_w156(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(6) { 0 => { let w = "hi'klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\"z0123456789abcdefghijklmnopqrstuvwx&z0123456789abcdefghijklmnopqrstuvwxyz0<23456789ab>defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\"6789abcdefghijklm<"; if k { esc(x); lit(" hi&#39;klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx&quot;z0123456789abcdefghijklmnopqrstuvwx&amp;z0123456789abcdefghijklmnopqrstuvwxyz0&lt;23456789ab&gt;defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&quot;6789abcdefghijklm&lt;"); end(b, classes!(x, "hi'klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx\"z0123456789abcdefghijklmnopqrstuvwx&z0123456789abcdefghijklmnopqrstuvwxyz0<23456789ab>defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\"6789abcdefghijklm<")) } else { lit("hi&#39;klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwx&quot;z0123456789abcdefghijklmnopqrstuvwx&amp;z0123456789abcdefghijklmnopqrstuvwxyz0&lt;23456789ab&gt;defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&quot;6789abcdefghijklm&lt;"); end(b, w) } } 1 => { let w = "'jklmnopqrstuvwxyz0123456'89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop"; if k { lit("<p a=\"ponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba98&#39;6543210zyxwvutsrqponmlkj&#39;\"><b>&#39;jklmnopqrstuvwxyz0123456&#39;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop</b></p>"); end(b, p!(b!(("'jklmnopqrstuvwxyz0123456'89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop")), a = { "ponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba98'6543210zyxwvutsrqponmlkj'" })) } else { lit("&#39;jklmnopqrstuvwxyz0123456&#39;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop"); end(b, w) } } 2 => { let w = "<klmnopqrs&uvwxyz0123456789abcdef<hijklmnopqrstuvwxyz0123456789abcdefghijklm<opqrstuvwx'z0123456789abcdefghijklénopqrstu\"wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\"tuvwxyz0123456789abcdefghijklmnopq'"; if k { lit("<p>&lt;klmnopqrs&amp;uvwxyz0123456789abcdef&lt;hijklmnopqrstuvwxyz0123456789abcdefghijklm&lt;opqrstuvwx&#39;z0123456789abcdefghijklénopqrstu&quot;wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr&quot;tuvwxyz0123456789abcdefghijklmnopq&#39;</p>"); end(b, p!("<klmnopqrs&uvwxyz0123456789abcdef<hijklmnopqrstuvwxyz0123456789abcdefghijklm<opqrstuvwx'z0123456789abcdefghijklénopqrstu\"wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr\"tuvwxyz0123456789abcdefghijklmnopq'")) } else { lit("&lt;klmnopqrs&amp;uvwxyz0123456789abcdef&lt;hijklmnopqrstuvwxyz0123456789abcdefghijklm&lt;opqrstuvwx&#39;z0123456789abcdefghijklénopqrstu&quot;wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr&quot;tuvwxyz0123456789abcdefghijklmnopq&#39;"); end(b, w) } } 3 => { let w = "89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234'"; if k { lit("<p>89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&amp;pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&#39;</p>"); end(b, p!("89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234'")) } else { lit("89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&amp;pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&#39;"); end(b, w) } } 4 => { let w = "<efghijklmnopqrstuvwxyz0123456789abcdefghijk&mnopqrstuv<xy&0123456789abcdefghijklmnopqrstuvwxyz01234\"6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij<lmnopqrstuvwxyz0123456789\"bcdefghijklmnop<rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde'"; if k { lit("<p>&lt;efghijklmnopqrstuvwxyz0123456789abcdefghijk&amp;mnopqrstuv&lt;xy&amp;0123456789abcdefghijklmnopqrstuvwxyz01234&quot;6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&lt;lmnopqrstuvwxyz0123456789&quot;bcdefghijklmnop&lt;rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde&#39;</p>"); end(b, p!("<efghijklmnopqrstuvwxyz0123456789abcdefghijk&mnopqrstuv<xy&0123456789abcdefghijklmnopqrstuvwxyz01234\"6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij<lmnopqrstuvwxyz0123456789\"bcdefghijklmnop<rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde'")) } else { lit("&lt;efghijklmnopqrstuvwxyz0123456789abcdefghijk&amp;mnopqrstuv&lt;xy&amp;0123456789abcdefghijklmnopqrstuvwxyz01234&quot;6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&lt;lmnopqrstuvwxyz0123456789&quot;bcdefghijklmnop&lt;rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde&#39;"); end(b, w) } } _ => { let w = "efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr>tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg>"; if k { lit("<p id=\"efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr&gt;tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = "efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr>tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg>", x)) } else { lit("efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr&gt;tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&gt;"); end(b, w) } } } }
    h_22_w162(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(6) { 0 => { let w = "&ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\"defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxéz012345\"789ab&&efghijklmnopqrstuvwxyz0&23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab&defghij"; if k { lit("&amp;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab&quot;defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxéz012345&quot;789ab&amp;&amp;efghijklmnopqrstuvwxyz0&amp;23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab&amp;defghij"); esc(x); lit("&amp;ghijklmnopqrstuvwxy"); end(b, frag!("&ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab\"defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxéz012345\"789ab&&efghijklmnopqrstuvwxyz0&23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab&defghij", x, "&ghijklmnopqrstuvwxy")) } else { lit("&amp;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab&quot;defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxéz012345&quot;789ab&amp;&amp;efghijklmnopqrstuvwxyz0&amp;23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab&amp;defghij"); end(b, w) } } 1 => { let w = "\"bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl&nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678<"; if k { esc(x); lit(" &quot;bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl&amp;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&lt;"); end(b, classes!(x, "\"bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl&nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678<")) } else { lit("&quot;bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl&amp;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&lt;"); end(b, w) } } 2 => { let w = "<nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef\"hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw'"; if k { lit("<p>&lt;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef&quot;hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&#39;</p>"); end(b, p!("<nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef\"hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw'")) } else { lit("&lt;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef&quot;hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&#39;"); end(b, w) } } 3 => { let w = "\"yz012345>789abcdefghijklmno\"qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz>1234'6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop<rstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\"0123456789abcdefghijklmnopqrstuvwxyz0123456<89abcdefghijklmnopqrstuvwxyz0123456'89abcdefghijklmnopqrstuvwxyz01>3456789abcdefghijklmnopqrstuvwxyz0123456<89abcdefghij"; if k { esc(x); lit(" &quot;yz012345&gt;789abcdefghijklmno&quot;qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz&gt;1234&#39;6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop&lt;rstuvwxyz0123456789abcdefghijklmnopqrstuvwxy&quot;0123456789abcdefghijklmnopqrstuvwxyz0123456&lt;89abcdefghijklmnopqrstuvwxyz0123456&#39;89abcdefghijklmnopqrstuvwxyz01&gt;3456789abcdefghijklmnopqrstuvwxyz0123456&lt;89abcdefghij"); end(b, classes!(x, "\"yz012345>789abcdefghijklmno\"qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz>1234'6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop<rstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\"0123456789abcdefghijklmnopqrstuvwxyz0123456<89abcdefghijklmnopqrstuvwxyz0123456'89abcdefghijklmnopqrstuvwxyz01>3456789abcdefghijklmnopqrstuvwxyz0123456<89abcdefghij")) } else { lit("&quot;yz012345&gt;789abcdefghijklmno&quot;qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz&gt;1234&#39;6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop&lt;rstuvwxyz0123456789abcdefghijklmnopqrstuvwxy&quot;0123456789abcdefghijklmnopqrstuvwxyz0123456&lt;89abcdefghijklmnopqrstuvwxyz0123456&#39;89abcdefghijklmnopqrstuvwxyz01&gt;3456789abcdefghijklmnopqrstuvwxyz0123456&lt;89abcdefghij"); end(b, w) } } 4 => { let w = "'z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678\"abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&"; if k { lit("<p a=\"&amp;kjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba&quot;876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210z&#39;\"><b>&#39;z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&quot;abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&amp;</b></p>"); end(b, p!(b!(("'z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678\"abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&")), a = { "&kjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba\"876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210z'" })) } else { lit("&#39;z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&quot;abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&amp;"); end(b, w) } } _ => { let w = "z01234567>9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234'6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm<opqrstuvwxyz0>234&6789ébcdefghijklmnopqrstuvwxy'0123456789&bcdefghijklmnopqrstuvwxyz012345\"789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst&vwxyz0<23456789abcdefghijklm'"; if k { lit("<p>z01234567&gt;9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&#39;6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&lt;opqrstuvwxyz0&gt;234&amp;6789ébcdefghijklmnopqrstuvwxy&#39;0123456789&amp;bcdefghijklmnopqrstuvwxyz012345&quot;789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst&amp;vwxyz0&lt;23456789abcdefghijklm&#39;</p>"); end(b, p!("z01234567>9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234'6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm<opqrstuvwxyz0>234&6789ébcdefghijklmnopqrstuvwxy'0123456789&bcdefghijklmnopqrstuvwxyz012345\"789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst&vwxyz0<23456789abcdefghijklm'")) } else { lit("z01234567&gt;9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&#39;6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&lt;opqrstuvwxyz0&gt;234&amp;6789ébcdefghijklmnopqrstuvwxy&#39;0123456789&amp;bcdefghijklmnopqrstuvwxyz012345&quot;789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst&amp;vwxyz0&lt;23456789abcdefghijklm&#39;"); end(b, w) } } } }
    h_22_w168(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(1) { _ => { let w = "<789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01"; if k { lit("<p>&lt;789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&amp;lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01</p>"); end(b, p!("<789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01")) } else { lit("&lt;789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&amp;lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01"); end(b, w) } } } }
    h_22_w169(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(1) { _ => { let w = "hijklmn<pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij>lmnopq\"stuvwxyz0123456789abcdefghijk'mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234<6789abcdefghijklmnopqrstuvwxyz0123456789abcdef&hijklmnopqrstuvwxyz0123456789a>cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu&wxyz0123456789abcdefghi&klmnopqrstuvwxyz0123>567&9abcdefghijklmnopqrstuvwxyz0&23456789abcdefghijklmnopqrstuvwx&z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm>"; if k { lit("<p id=\"hijklmn&lt;pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&gt;lmnopq&quot;stuvwxyz0123456789abcdefghijk&#39;mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&lt;6789abcdefghijklmnopqrstuvwxyz0123456789abcdef&amp;hijklmnopqrstuvwxyz0123456789a&gt;cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu&amp;wxyz0123456789abcdefghi&amp;klmnopqrstuvwxyz0123&gt;567&amp;9abcdefghijklmnopqrstuvwxyz0&amp;23456789abcdefghijklmnopqrstuvwx&amp;z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = "hijklmn<pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij>lmnopq\"stuvwxyz0123456789abcdefghijk'mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234<6789abcdefghijklmnopqrstuvwxyz0123456789abcdef&hijklmnopqrstuvwxyz0123456789a>cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu&wxyz0123456789abcdefghi&klmnopqrstuvwxyz0123>567&9abcdefghijklmnopqrstuvwxyz0&23456789abcdefghijklmnopqrstuvwx&z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm>", x)) } else { lit("hijklmn&lt;pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&gt;lmnopq&quot;stuvwxyz0123456789abcdefghijk&#39;mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&lt;6789abcdefghijklmnopqrstuvwxyz0123456789abcdef&amp;hijklmnopqrstuvwxyz0123456789a&gt;cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu&amp;wxyz0123456789abcdefghi&amp;klmnopqrstuvwxyz0123&gt;567&amp;9abcdefghijklmnopqrstuvwxyz0&amp;23456789abcdefghijklmnopqrstuvwx&amp;z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&gt;"); end(b, w) } } } }
    h_22_w170(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(1) { _ => { let w = "&jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\"qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop"; if k { lit("&amp;jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno&quot;qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop"); esc(x); lit("&amp;jklmnopqrstuvwxyz01"); end(b, frag!("&jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno\"qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop", x, "&jklmnopqrstuvwxyz01")) } else { lit("&amp;jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmno&quot;qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop"); end(b, w) } } } }
    h_22_w171(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(1) { _ => { let w = "\"klmnopqrstuvwxyz0123456789abcdefghij>lmnopq<stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\"efghijklmnopqrstuv>xyz0123'56789abcde>ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\"89abcdefghijklmnopqr<tuvwx>z\"123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop<rstuvwxyz01>3456789abcdefghijklmnopqrstuvwxyz0123456789a\"cdefghijklmnopq<"; if k { esc(x); lit(" &quot;klmnopqrstuvwxyz0123456789abcdefghij&gt;lmnopq&lt;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc&quot;efghijklmnopqrstuv&gt;xyz0123&#39;56789abcde&gt;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456&quot;89abcdefghijklmnopqr&lt;tuvwx&gt;z&quot;123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop&lt;rstuvwxyz01&gt;3456789abcdefghijklmnopqrstuvwxyz0123456789a&quot;cdefghijklmnopq&lt;"); end(b, classes!(x, "\"klmnopqrstuvwxyz0123456789abcdefghij>lmnopq<stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc\"efghijklmnopqrstuv>xyz0123'56789abcde>ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\"89abcdefghijklmnopqr<tuvwx>z\"123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop<rstuvwxyz01>3456789abcdefghijklmnopqrstuvwxyz0123456789a\"cdefghijklmnopq<")) } else { lit("&quot;klmnopqrstuvwxyz0123456789abcdefghij&gt;lmnopq&lt;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc&quot;efghijklmnopqrstuv&gt;xyz0123&#39;56789abcde&gt;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456&quot;89abcdefghijklmnopqr&lt;tuvwx&gt;z&quot;123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop&lt;rstuvwxyz01&gt;3456789abcdefghijklmnopqrstuvwxyz0123456789a&quot;cdefghijklmnopq&lt;"); end(b, w) } } } }
    h_22_w172(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(1) { _ => { let w = "23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv'xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs'"; if k { lit("<p>23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv&#39;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs&#39;</p>"); end(b, p!("23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv'xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs'")) } else { lit("23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv&#39;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs&#39;"); end(b, w) } } } }
    h_22_w173(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(1) { _ => { let w = "\"qrstuvwxyz0123456789abcde&<hijklmnopqrstuvwxyz0123456789abcdefg'ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01<3\"56789abcdefghijklmnopqrstuvwx<z0123456789abc>efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567<9abcd&fg'ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw'yz0123456789abcdefghijklmnopqrstuvwxyz0123456<89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv&xyz0123<56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\"0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde'ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw<yz0123456789abcdefghijklmnopqrstuvw<y<012345678>abcdefghijklmnopqrstuvwxyz0123456&89abcdefghijklmnopqrstuvwxyz0123456789abcdefghi'klmnopqrstuvwxyz0123456789<bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy>0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm>opqrstuvwxy&012<"; if k { esc(x); lit(" &quot;qrstuvwxyz0123456789abcde&amp;&lt;hijklmnopqrstuvwxyz0123456789abcdefg&#39;ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01&lt;3&quot;56789abcdefghijklmnopqrstuvwx&lt;z0123456789abc&gt;efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567&lt;9abcd&amp;fg&#39;ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&#39;yz0123456789abcdefghijklmnopqrstuvwxyz0123456&lt;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv&amp;xyz0123&lt;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy&quot;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde&#39;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&lt;yz0123456789abcdefghijklmnopqrstuvw&lt;y&lt;012345678&gt;abcdefghijklmnopqrstuvwxyz0123456&amp;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghi&#39;klmnopqrstuvwxyz0123456789&lt;bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy&gt;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&gt;opqrstuvwxy&amp;012&lt;"); end(b, classes!(x, "\"qrstuvwxyz0123456789abcde&<hijklmnopqrstuvwxyz0123456789abcdefg'ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01<3\"56789abcdefghijklmnopqrstuvwx<z0123456789abc>efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567<9abcd&fg'ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw'yz0123456789abcdefghijklmnopqrstuvwxyz0123456<89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv&xyz0123<56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\"0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde'ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw<yz0123456789abcdefghijklmnopqrstuvw<y<012345678>abcdefghijklmnopqrstuvwxyz0123456&89abcdefghijklmnopqrstuvwxyz0123456789abcdefghi'klmnopqrstuvwxyz0123456789<bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy>0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm>opqrstuvwxy&012<")) } else { lit("&quot;qrstuvwxyz0123456789abcde&amp;&lt;hijklmnopqrstuvwxyz0123456789abcdefg&#39;ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01&lt;3&quot;56789abcdefghijklmnopqrstuvwx&lt;z0123456789abc&gt;efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567&lt;9abcd&amp;fg&#39;ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&#39;yz0123456789abcdefghijklmnopqrstuvwxyz0123456&lt;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv&amp;xyz0123&lt;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy&quot;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde&#39;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&lt;yz0123456789abcdefghijklmnopqrstuvw&lt;y&lt;012345678&gt;abcdefghijklmnopqrstuvwxyz0123456&amp;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghi&#39;klmnopqrstuvwxyz0123456789&lt;bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy&gt;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&gt;opqrstuvwxy&amp;012&lt;"); end(b, w) } } } }
    h_22_w174(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(1) { _ => { let w = "qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\"456789abcdefghijklmnopqrstuvwxyz01234&"; if k { lit("<p a=\"&amp;43210zyxwvutsrqponmlkjihgfedcba987654&quot;210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrq\"><b>qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012&quot;456789abcdefghijklmnopqrstuvwxyz01234&amp;</b></p>"); end(b, p!(b!(("qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\"456789abcdefghijklmnopqrstuvwxyz01234&")), a = { "&43210zyxwvutsrqponmlkjihgfedcba987654\"210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrq" })) } else { lit("qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012&quot;456789abcdefghijklmnopqrstuvwxyz01234&amp;"); end(b, w) } } } }
    h_22_w175(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(1) { _ => { let w = "<stuvwxyz0123456789abcdefghijklmnopqr'tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123'56789abcdefghijklmnopqrstuvwxyz>123456789abcdefghijklmnopqrstuvwxyz01234567&9abcd<fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu'wxyz01234>6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456&89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678'abcde<ghijklmnopqrstuvwxy>0123456789abcdefghijklmnopqrstuvwxyz0123456789ab'defghijklmnopqrstuvwxéz012345&789abcdef<hi&klmnopqrstuvwxyz0123456789abcdefghijklmnopq>stuvwxyz01234>6789abcdefghijklmnopqrstuv>xyz012&456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\"9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc'efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl'nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde<g'ijklmnopqrstuvwxyz01234567"; if k { lit("<p>&lt;stuvwxyz0123456789abcdefghijklmnopqr&#39;tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123&#39;56789abcdefghijklmnopqrstuvwxyz&gt;123456789abcdefghijklmnopqrstuvwxyz01234567&amp;9abcd&lt;fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu&#39;wxyz01234&gt;6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456&amp;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&#39;abcde&lt;ghijklmnopqrstuvwxy&gt;0123456789abcdefghijklmnopqrstuvwxyz0123456789ab&#39;defghijklmnopqrstuvwxéz012345&amp;789abcdef&lt;hi&amp;klmnopqrstuvwxyz0123456789abcdefghijklmnopq&gt;stuvwxyz01234&gt;6789abcdefghijklmnopqrstuv&gt;xyz012&amp;456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567&quot;9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc&#39;efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl&#39;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde&lt;g&#39;ijklmnopqrstuvwxyz01234567</p>"); end(b, p!("<stuvwxyz0123456789abcdefghijklmnopqr'tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123'56789abcdefghijklmnopqrstuvwxyz>123456789abcdefghijklmnopqrstuvwxyz01234567&9abcd<fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu'wxyz01234>6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456&89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678'abcde<ghijklmnopqrstuvwxy>0123456789abcdefghijklmnopqrstuvwxyz0123456789ab'defghijklmnopqrstuvwxéz012345&789abcdef<hi&klmnopqrstuvwxyz0123456789abcdefghijklmnopq>stuvwxyz01234>6789abcdefghijklmnopqrstuv>xyz012&456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567\"9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc'efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl'nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde<g'ijklmnopqrstuvwxyz01234567")) } else { lit("&lt;stuvwxyz0123456789abcdefghijklmnopqr&#39;tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123&#39;56789abcdefghijklmnopqrstuvwxyz&gt;123456789abcdefghijklmnopqrstuvwxyz01234567&amp;9abcd&lt;fghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu&#39;wxyz01234&gt;6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456&amp;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&#39;abcde&lt;ghijklmnopqrstuvwxy&gt;0123456789abcdefghijklmnopqrstuvwxyz0123456789ab&#39;defghijklmnopqrstuvwxéz012345&amp;789abcdef&lt;hi&amp;klmnopqrstuvwxyz0123456789abcdefghijklmnopq&gt;stuvwxyz01234&gt;6789abcdefghijklmnopqrstuv&gt;xyz012&amp;456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234567&quot;9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc&#39;efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl&#39;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde&lt;g&#39;ijklmnopqrstuvwxyz01234567"); end(b, w) } } } }
    h_22_w176(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(1) { _ => { let w = "56789abcdefghijklmnopqrstuvwxyz0123456789<bcdefghijklmnopqrstuvwxyz01\"3456789ab>defghijklmnopqrstuvwxyz0123456789a>cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv<&yz0123456789abcdefghijklmnopqrstuvwxyz0'23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu&wxyz01<3456789abcdefghijklmno<qrstuvwxyz0123456789ab>defghijklmnopqrstuvwxyz0123456789abcdefghi'klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg>ijklmnopqrstuvwxyz&123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn'pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd\"fghijklmnopqrstuvwxyz01234567'9abcd&fghijkl<nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0<23456789abcdefghijklmnopqrstu&'xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv<xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\"yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\"123456789abcdefghijklmnopqrstuvwxyz<123456789abcdefghijklmnopqrstuvwxyz01234<6>89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn>pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq''tuvwxyz0123456789abcdefghi<klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde>ghijklmnopqrstuvwxyz012345>'89abcdefghijklmnopqrstuvwxyz01234\"6789abcdefghijklmnopqrstuvwxyz0123456789a<cdefghijklmnopqrstuvwxy>0123456789abcdefghij'lmnopqrstuvwxy\"0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij<lmnopqrstuvwxyz0123456'89abcdefghijklmnopqrstuvwxyz0123456789>bcdefghijk'mnopqrstuvwxyz0123456789a<cdefghijklmnopqrstuvwxyz012345678<abcdefghijklmnopqrstuvwxyz0&>3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm<opqrst&vwxyz0123456789abc&efghij'lmnopqrstuvwxy\""; if k { lit("56789abcdefghijklmnopqrstuvwxyz0123456789&lt;bcdefghijklmnopqrstuvwxyz01&quot;3456789ab&gt;defghijklmnopqrstuvwxyz0123456789a&gt;cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv&lt;&amp;yz0123456789abcdefghijklmnopqrstuvwxyz0&#39;23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu&amp;wxyz01&lt;3456789abcdefghijklmno&lt;qrstuvwxyz0123456789ab&gt;defghijklmnopqrstuvwxyz0123456789abcdefghi&#39;klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&gt;ijklmnopqrstuvwxyz&amp;123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&#39;pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd&quot;fghijklmnopqrstuvwxyz01234567&#39;9abcd&amp;fghijkl&lt;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0&lt;23456789abcdefghijklmnopqrstu&amp;&#39;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv&lt;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&quot;yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz&quot;123456789abcdefghijklmnopqrstuvwxyz&lt;123456789abcdefghijklmnopqrstuvwxyz01234&lt;6&gt;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&gt;pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&#39;&#39;tuvwxyz0123456789abcdefghi&lt;klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde&gt;ghijklmnopqrstuvwxyz012345&gt;&#39;89abcdefghijklmnopqrstuvwxyz01234&quot;6789abcdefghijklmnopqrstuvwxyz0123456789a&lt;cdefghijklmnopqrstuvwxy&gt;0123456789abcdefghij&#39;lmnopqrstuvwxy&quot;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&lt;lmnopqrstuvwxyz0123456&#39;89abcdefghijklmnopqrstuvwxyz0123456789&gt;bcdefghijk&#39;mnopqrstuvwxyz0123456789a&lt;cdefghijklmnopqrstuvwxyz012345678&lt;abcdefghijklmnopqrstuvwxyz0&amp;&gt;3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&lt;opqrst&amp;vwxyz0123456789abc&amp;efghij&#39;lmnopqrstuvwxy&quot;"); esc(x); lit("56789abcdefghijklmno"); end(b, frag!("56789abcdefghijklmnopqrstuvwxyz0123456789<bcdefghijklmnopqrstuvwxyz01\"3456789ab>defghijklmnopqrstuvwxyz0123456789a>cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv<&yz0123456789abcdefghijklmnopqrstuvwxyz0'23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu&wxyz01<3456789abcdefghijklmno<qrstuvwxyz0123456789ab>defghijklmnopqrstuvwxyz0123456789abcdefghi'klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg>ijklmnopqrstuvwxyz&123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn'pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd\"fghijklmnopqrstuvwxyz01234567'9abcd&fghijkl<nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0<23456789abcdefghijklmnopqrstu&'xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv<xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\"yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz\"123456789abcdefghijklmnopqrstuvwxyz<123456789abcdefghijklmnopqrstuvwxyz01234<6>89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn>pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq''tuvwxyz0123456789abcdefghi<klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde>ghijklmnopqrstuvwxyz012345>'89abcdefghijklmnopqrstuvwxyz01234\"6789abcdefghijklmnopqrstuvwxyz0123456789a<cdefghijklmnopqrstuvwxy>0123456789abcdefghij'lmnopqrstuvwxy\"0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij<lmnopqrstuvwxyz0123456'89abcdefghijklmnopqrstuvwxyz0123456789>bcdefghijk'mnopqrstuvwxyz0123456789a<cdefghijklmnopqrstuvwxyz012345678<abcdefghijklmnopqrstuvwxyz0&>3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm<opqrst&vwxyz0123456789abc&efghij'lmnopqrstuvwxy\"", x, "56789abcdefghijklmno")) } else { lit("56789abcdefghijklmnopqrstuvwxyz0123456789&lt;bcdefghijklmnopqrstuvwxyz01&quot;3456789ab&gt;defghijklmnopqrstuvwxyz0123456789a&gt;cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv&lt;&amp;yz0123456789abcdefghijklmnopqrstuvwxyz0&#39;23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu&amp;wxyz01&lt;3456789abcdefghijklmno&lt;qrstuvwxyz0123456789ab&gt;defghijklmnopqrstuvwxyz0123456789abcdefghi&#39;klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&gt;ijklmnopqrstuvwxyz&amp;123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&#39;pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcd&quot;fghijklmnopqrstuvwxyz01234567&#39;9abcd&amp;fghijkl&lt;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0&lt;23456789abcdefghijklmnopqrstu&amp;&#39;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv&lt;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&quot;yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz&quot;123456789abcdefghijklmnopqrstuvwxyz&lt;123456789abcdefghijklmnopqrstuvwxyz01234&lt;6&gt;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&gt;pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&#39;&#39;tuvwxyz0123456789abcdefghi&lt;klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde&gt;ghijklmnopqrstuvwxyz012345&gt;&#39;89abcdefghijklmnopqrstuvwxyz01234&quot;6789abcdefghijklmnopqrstuvwxyz0123456789a&lt;cdefghijklmnopqrstuvwxy&gt;0123456789abcdefghij&#39;lmnopqrstuvwxy&quot;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&lt;lmnopqrstuvwxyz0123456&#39;89abcdefghijklmnopqrstuvwxyz0123456789&gt;bcdefghijk&#39;mnopqrstuvwxyz0123456789a&lt;cdefghijklmnopqrstuvwxyz012345678&lt;abcdefghijklmnopqrstuvwxyz0&amp;&gt;3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&lt;opqrst&amp;vwxyz0123456789abc&amp;efghij&#39;lmnopqrstuvwxy&quot;"); end(b, w) } } } }
    h_22_w177(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(1) { _ => { let w = "\"789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef<hijklmnopqrstuvwxyz01"; if k { esc(x); lit(" &quot;789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef&lt;hijklmnopqrstuvwxyz01"); end(b, classes!(x, "\"789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef<hijklmnopqrstuvwxyz01")) } else { lit("&quot;789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef&lt;hijklmnopqrstuvwxyz01"); end(b, w) } } } }
    h_22_w178(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(1) { _ => { let w = "'89abcdefghijklmnopq\"stuvwxyz0123456789abcdefghijkl'nopqrstuvwx&z0123456789abcdefghijklmnopqrstuvwxyz01'3456789abcdefghijklmnopqrstuvwxyz0123456789abcd'fghijklmnopqrstuvw&yz0123<56789abcdefghijklmnopqrstuvwxyz0>23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\"yz0123<56789abcdefghi'klmnopqrstuvwxyz0123&56789abcdefghijklmnopqrstuvwxyz0123456789a\"cdefghijklmnopqrstuvwxyz01<3456789abcdefghijklmnopqrstuvwxyz0123456<89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg'ijklmnopqrstu\"wxyz0123456789abcdefghijklmnopqrstu<wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh>jklmnopqrstuvwx>z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij<lmnopqrstuvwxyz0123456789a<cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0'23456789abcdefghijk>mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\"6789abcdefghijklmnopqrstuvwxyz0123456789abcdef<hijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678<abcdefgh\"jklmnopqrstuvwxyz0123456&89abcdefghijklmnopqrstuvwxyz01<3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi'klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde>ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\"89abcdefghijklmnopqrstuvwx<z0123456789abcd>fghijklmnopqrstuv\"xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a<cdefghijklmn>pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab&defghijklmnopqrstuvw&yz0123456789abcde&ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345>789abcdefghijklmnopq&stuvwxyz0123&56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\"uvwxyz0123456789abcdefg<ijklm<opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123&56789abcdefghijklmnopqrstuvwxyz0123\"56789abcdefghijklmnopqrstuvwxyz012345>789abcdefghijkl&nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs'uvwxyz012&"; if k { lit("<p a=\"&amp;210zyxwvu&#39;srqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqpon&amp;lkjihgfedcba987&gt;543210zyxwvutsrqponmlkjihgfedcba98765&quot;3210zyxwvutsrqponmlkjihgfedcba98765&amp;3210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqpo&lt;mlkji&lt;gfedcba9876543210zyxwvu&quot;srqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba98765&amp;3210zyxwvuts&amp;qponmlkjihgfedcba987&gt;543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihg&amp;edcba9876543210zy&amp;wvutsrqponmlkjihgfed&amp;ba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqp&gt;nmlkjihgfedc&lt;a9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyx&quot;vutsrqponmlkjihgf&gt;dcba9876543210z&lt;xwvutsrqponmlkjihgfedcba98&quot;6543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihg&gt;edcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlk&#39;ihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543&lt;10zyxwvutsrqponmlkjihgfedcba98&amp;6543210zyxwvutsrqponmlkj&quot;hgfedcba&lt;876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponélkjih&lt;fedcba9876543210zyxwvutsrqponmlkjihgfedcba9876&quot;43210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponm&gt;kjihgfedcba98765432&#39;0zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedc&lt;a9876543210zyxwvutsrqponml&lt;jihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210z&gt;xwvutsrqponmlkj&gt;hgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxw&lt;utsrqponmlkjihgfedcba9876543210zyxw&quot;utsrqponmlkji&#39;gfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba98&lt;6543210zyxwvutsrqponmlkjihgfedcba9876543&lt;10zyxwvutsrqponmlkjihgfedc&quot;a9876543210zyxwvutsrqponmlkjihgfedcba98765&amp;3210zyxwvutsrqponmlk&#39;ihgfedcba98765&lt;3210zy&quot;wvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba98765432&gt;0zyxwvutsrqponmlkjihgfedcba98765&lt;3210zy&amp;wvutsrqponmlkjihgf&#39;dcba9876543210zyxwvutsrqponmlkjihgfedcba9876543&#39;10zyxwvutsrqponmlkjihgfedcba9876543210z&amp;xwvutsrqpon&#39;lkjihgfedcba9876543210zyxwvuts&quot;qponmlkjihgfedcba98&#39;\"><b>&#39;89abcdefghijklmnopq&quot;stuvwxyz0123456789abcdefghijkl&#39;nopqrstuvwx&amp;z0123456789abcdefghijklmnopqrstuvwxyz01&#39;3456789abcdefghijklmnopqrstuvwxyz0123456789abcd&#39;fghijklmnopqrstuvw&amp;yz0123&lt;56789abcdefghijklmnopqrstuvwxyz0&gt;23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&quot;yz0123&lt;56789abcdefghi&#39;klmnopqrstuvwxyz0123&amp;56789abcdefghijklmnopqrstuvwxyz0123456789a&quot;cdefghijklmnopqrstuvwxyz01&lt;3456789abcdefghijklmnopqrstuvwxyz0123456&lt;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&#39;ijklmnopqrstu&quot;wxyz0123456789abcdefghijklmnopqrstu&lt;wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh&gt;jklmnopqrstuvwx&gt;z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&lt;lmnopqrstuvwxyz0123456789a&lt;cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0&#39;23456789abcdefghijk&gt;mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&quot;6789abcdefghijklmnopqrstuvwxyz0123456789abcdef&lt;hijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&lt;abcdefgh&quot;jklmnopqrstuvwxyz0123456&amp;89abcdefghijklmnopqrstuvwxyz01&lt;3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi&#39;klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde&gt;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456&quot;89abcdefghijklmnopqrstuvwx&lt;z0123456789abcd&gt;fghijklmnopqrstuv&quot;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a&lt;cdefghijklmn&gt;pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab&amp;defghijklmnopqrstuvw&amp;yz0123456789abcde&amp;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&gt;789abcdefghijklmnopq&amp;stuvwxyz0123&amp;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs&quot;uvwxyz0123456789abcdefg&lt;ijklm&lt;opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123&amp;56789abcdefghijklmnopqrstuvwxyz0123&quot;56789abcdefghijklmnopqrstuvwxyz012345&gt;789abcdefghijkl&amp;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs&#39;uvwxyz012&amp;</b></p>"); end(b, p!(b!(("'89abcdefghijklmnopq\"stuvwxyz0123456789abcdefghijkl'nopqrstuvwx&z0123456789abcdefghijklmnopqrstuvwxyz01'3456789abcdefghijklmnopqrstuvwxyz0123456789abcd'fghijklmnopqrstuvw&yz0123<56789abcdefghijklmnopqrstuvwxyz0>23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw\"yz0123<56789abcdefghi'klmnopqrstuvwxyz0123&56789abcdefghijklmnopqrstuvwxyz0123456789a\"cdefghijklmnopqrstuvwxyz01<3456789abcdefghijklmnopqrstuvwxyz0123456<89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg'ijklmnopqrstu\"wxyz0123456789abcdefghijklmnopqrstu<wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh>jklmnopqrstuvwx>z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij<lmnopqrstuvwxyz0123456789a<cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0'23456789abcdefghijk>mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234\"6789abcdefghijklmnopqrstuvwxyz0123456789abcdef<hijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678<abcdefgh\"jklmnopqrstuvwxyz0123456&89abcdefghijklmnopqrstuvwxyz01<3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi'klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde>ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456\"89abcdefghijklmnopqrstuvwx<z0123456789abcd>fghijklmnopqrstuv\"xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a<cdefghijklmn>pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab&defghijklmnopqrstuvw&yz0123456789abcde&ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345>789abcdefghijklmnopq&stuvwxyz0123&56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs\"uvwxyz0123456789abcdefg<ijklm<opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123&56789abcdefghijklmnopqrstuvwxyz0123\"56789abcdefghijklmnopqrstuvwxyz012345>789abcdefghijkl&nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs'uvwxyz012&")), a = { "&210zyxwvu'srqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqpon&lkjihgfedcba987>543210zyxwvutsrqponmlkjihgfedcba98765\"3210zyxwvutsrqponmlkjihgfedcba98765&3210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqpo<mlkji<gfedcba9876543210zyxwvu\"srqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba98765&3210zyxwvuts&qponmlkjihgfedcba987>543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihg&edcba9876543210zy&wvutsrqponmlkjihgfed&ba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqp>nmlkjihgfedc<a9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyx\"vutsrqponmlkjihgf>dcba9876543210z<xwvutsrqponmlkjihgfedcba98\"6543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihg>edcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlk'ihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543<10zyxwvutsrqponmlkjihgfedcba98&6543210zyxwvutsrqponmlkj\"hgfedcba<876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponélkjih<fedcba9876543210zyxwvutsrqponmlkjihgfedcba9876\"43210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponm>kjihgfedcba98765432'0zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedc<a9876543210zyxwvutsrqponml<jihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210z>xwvutsrqponmlkj>hgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxw<utsrqponmlkjihgfedcba9876543210zyxw\"utsrqponmlkji'gfedcba9876543210zyxwvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba98<6543210zyxwvutsrqponmlkjihgfedcba9876543<10zyxwvutsrqponmlkjihgfedc\"a9876543210zyxwvutsrqponmlkjihgfedcba98765&3210zyxwvutsrqponmlk'ihgfedcba98765<3210zy\"wvutsrqponmlkjihgfedcba9876543210zyxwvutsrqponmlkjihgfedcba98765432>0zyxwvutsrqponmlkjihgfedcba98765<3210zy&wvutsrqponmlkjihgf'dcba9876543210zyxwvutsrqponmlkjihgfedcba9876543'10zyxwvutsrqponmlkjihgfedcba9876543210z&xwvutsrqpon'lkjihgfedcba9876543210zyxwvuts\"qponmlkjihgfedcba98'" })) } else { lit("&#39;89abcdefghijklmnopq&quot;stuvwxyz0123456789abcdefghijkl&#39;nopqrstuvwx&amp;z0123456789abcdefghijklmnopqrstuvwxyz01&#39;3456789abcdefghijklmnopqrstuvwxyz0123456789abcd&#39;fghijklmnopqrstuvw&amp;yz0123&lt;56789abcdefghijklmnopqrstuvwxyz0&gt;23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&quot;yz0123&lt;56789abcdefghi&#39;klmnopqrstuvwxyz0123&amp;56789abcdefghijklmnopqrstuvwxyz0123456789a&quot;cdefghijklmnopqrstuvwxyz01&lt;3456789abcdefghijklmnopqrstuvwxyz0123456&lt;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&#39;ijklmnopqrstu&quot;wxyz0123456789abcdefghijklmnopqrstu&lt;wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh&gt;jklmnopqrstuvwx&gt;z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&lt;lmnopqrstuvwxyz0123456789a&lt;cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0&#39;23456789abcdefghijk&gt;mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&quot;6789abcdefghijklmnopqrstuvwxyz0123456789abcdef&lt;hijklénopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&lt;abcdefgh&quot;jklmnopqrstuvwxyz0123456&amp;89abcdefghijklmnopqrstuvwxyz01&lt;3456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghi&#39;klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde&gt;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456&quot;89abcdefghijklmnopqrstuvwx&lt;z0123456789abcd&gt;fghijklmnopqrstuv&quot;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789a&lt;cdefghijklmn&gt;pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789ab&amp;defghijklmnopqrstuvw&amp;yz0123456789abcde&amp;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&gt;789abcdefghijklmnopq&amp;stuvwxyz0123&amp;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs&quot;uvwxyz0123456789abcdefg&lt;ijklm&lt;opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123&amp;56789abcdefghijklmnopqrstuvwxyz0123&quot;56789abcdefghijklmnopqrstuvwxyz012345&gt;789abcdefghijkl&amp;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs&#39;uvwxyz012&amp;"); end(b, w) } } } }
    h_22_w179(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(1) { _ => { let w = "<23456<8\"abcdefghijklmnopq<stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234<6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123&56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk>mnopqrstuvwxyz0123456789abcdefghijklmnopqr&tuv>xyz0>23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn'pqrst\"vwxyz0123456789abcdefghijklmnopqrs<uvwxyz01234567\"9abcdefghijklmnop&rstuvwxyz01234'6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc'efghijklmno\"qrstuv&xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg>ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr<tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123&56789abcdefghijklmnopqrstuv>xyz0123456789abcdefghijklmnopqrstuvwxyz01234\"6789abcde\"ghijklmnopqrstuvwxyz01'3456789abcdefgh'jklmno'qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs<uvwxyz0123456789abcdefghijklmnopqrstuvw<yz0123456789abcdefghijklmnopqr<tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\"ghijk&mnopqrstuvwxy'01234567'9abcdefghi<klmnopqrs\"uvwxyz0123456789abcdefghijklm>opqrstuvwxyz01234<6789abcd\"fghijklm&o'qrstuvwxyz0123456<89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk'mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789<bc>efghijklmnopqrstuvwxyz0123456789abcde'ghi&klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef'hijklmnopqrstuvwxyz0123456789>\"cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\"0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345'789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\"nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw<yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\"0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq>st'vwxy'012345<789abcdefghijklmno<qrstuvwxyz0123456789a&cdefghijklmnopq<stuvwxyz0123456789a'cdefghijkl&nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy'0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345'789ab>defghijkl'nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\"opqrstuvwxyz\"123456789abcdefgh&jklmnopqrstuvwxyz0123456789abcd'fghijklmnopqrstuvwxyz01234<6789abcdefghijklmnopq>stuvwxyz0<23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw<yz0123456789abcdefghij>lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01>3456789abcdefghijklm'opqrstuvwxyz'1234567>9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst\"vwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678<abcdef<hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123'56789abcdefghijklmnopqrstuvwxyz0123'56789abcdefghijklmnopqrstuvwxyz0123456789>bcdefghijklmnopqrstuvwxyz0123456&89abcdefghijklmnopq'stuvwxyz0123456789abcdefghij\"lm'opq&stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456<89abcdefghijklmnopqrstuvwxyz01234<6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\"nopqrstuvwxyz0123456789abcdefghijklmnopq\"stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012<456789ab\"<efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh>jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq'"; if k { lit("<p>&lt;23456&lt;8&quot;abcdefghijklmnopq&lt;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&lt;6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123&amp;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&gt;mnopqrstuvwxyz0123456789abcdefghijklmnopqr&amp;tuv&gt;xyz0&gt;23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&#39;pqrst&quot;vwxyz0123456789abcdefghijklmnopqrs&lt;uvwxyz01234567&quot;9abcdefghijklmnop&amp;rstuvwxyz01234&#39;6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc&#39;efghijklmno&quot;qrstuv&amp;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&gt;ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr&lt;tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123&amp;56789abcdefghijklmnopqrstuv&gt;xyz0123456789abcdefghijklmnopqrstuvwxyz01234&quot;6789abcde&quot;ghijklmnopqrstuvwxyz01&#39;3456789abcdefgh&#39;jklmno&#39;qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs&lt;uvwxyz0123456789abcdefghijklmnopqrstuvw&lt;yz0123456789abcdefghijklmnopqr&lt;tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde&quot;ghijk&amp;mnopqrstuvwxy&#39;01234567&#39;9abcdefghi&lt;klmnopqrs&quot;uvwxyz0123456789abcdefghijklm&gt;opqrstuvwxyz01234&lt;6789abcd&quot;fghijklm&amp;o&#39;qrstuvwxyz0123456&lt;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&#39;mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789&lt;bc&gt;efghijklmnopqrstuvwxyz0123456789abcde&#39;ghi&amp;klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef&#39;hijklmnopqrstuvwxyz0123456789&gt;&quot;cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy&quot;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&#39;789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl&quot;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&lt;yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy&quot;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&gt;st&#39;vwxy&#39;012345&lt;789abcdefghijklmno&lt;qrstuvwxyz0123456789a&amp;cdefghijklmnopq&lt;stuvwxyz0123456789a&#39;cdefghijkl&amp;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy&#39;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&#39;789ab&gt;defghijkl&#39;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&quot;opqrstuvwxyz&quot;123456789abcdefgh&amp;jklmnopqrstuvwxyz0123456789abcd&#39;fghijklmnopqrstuvwxyz01234&lt;6789abcdefghijklmnopq&gt;stuvwxyz0&lt;23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&amp;lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&lt;yz0123456789abcdefghij&gt;lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01&gt;3456789abcdefghijklm&#39;opqrstuvwxyz&#39;1234567&gt;9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst&quot;vwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&lt;abcdef&lt;hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123&#39;56789abcdefghijklmnopqrstuvwxyz0123&#39;56789abcdefghijklmnopqrstuvwxyz0123456789&gt;bcdefghijklmnopqrstuvwxyz0123456&amp;89abcdefghijklmnopq&#39;stuvwxyz0123456789abcdefghij&quot;lm&#39;opq&amp;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456&lt;89abcdefghijklmnopqrstuvwxyz01234&lt;6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl&quot;nopqrstuvwxyz0123456789abcdefghijklmnopq&quot;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012&lt;456789ab&quot;&lt;efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh&gt;jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&#39;</p>"); end(b, p!("<23456<8\"abcdefghijklmnopq<stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234<6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123&56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk>mnopqrstuvwxyz0123456789abcdefghijklmnopqr&tuv>xyz0>23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn'pqrst\"vwxyz0123456789abcdefghijklmnopqrs<uvwxyz01234567\"9abcdefghijklmnop&rstuvwxyz01234'6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc'efghijklmno\"qrstuv&xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg>ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr<tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123&56789abcdefghijklmnopqrstuv>xyz0123456789abcdefghijklmnopqrstuvwxyz01234\"6789abcde\"ghijklmnopqrstuvwxyz01'3456789abcdefgh'jklmno'qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs<uvwxyz0123456789abcdefghijklmnopqrstuvw<yz0123456789abcdefghijklmnopqr<tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde\"ghijk&mnopqrstuvwxy'01234567'9abcdefghi<klmnopqrs\"uvwxyz0123456789abcdefghijklm>opqrstuvwxyz01234<6789abcd\"fghijklm&o'qrstuvwxyz0123456<89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk'mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789<bc>efghijklmnopqrstuvwxyz0123456789abcde'ghi&klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef'hijklmnopqrstuvwxyz0123456789>\"cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\"0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345'789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\"nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw<yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy\"0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq>st'vwxy'012345<789abcdefghijklmno<qrstuvwxyz0123456789a&cdefghijklmnopq<stuvwxyz0123456789a'cdefghijkl&nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy'0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345'789ab>defghijkl'nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\"opqrstuvwxyz\"123456789abcdefgh&jklmnopqrstuvwxyz0123456789abcd'fghijklmnopqrstuvwxyz01234<6789abcdefghijklmnopq>stuvwxyz0<23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw<yz0123456789abcdefghij>lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01>3456789abcdefghijklm'opqrstuvwxyz'1234567>9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst\"vwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678<abcdef<hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123'56789abcdefghijklmnopqrstuvwxyz0123'56789abcdefghijklmnopqrstuvwxyz0123456789>bcdefghijklmnopqrstuvwxyz0123456&89abcdefghijklmnopq'stuvwxyz0123456789abcdefghij\"lm'opq&stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456<89abcdefghijklmnopqrstuvwxyz01234<6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl\"nopqrstuvwxyz0123456789abcdefghijklmnopq\"stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012<456789ab\"<efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh>jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq'")) } else { lit("&lt;23456&lt;8&quot;abcdefghijklmnopq&lt;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01234&lt;6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123&amp;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&gt;mnopqrstuvwxyz0123456789abcdefghijklmnopqr&amp;tuv&gt;xyz0&gt;23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&#39;pqrst&quot;vwxyz0123456789abcdefghijklmnopqrs&lt;uvwxyz01234567&quot;9abcdefghijklmnop&amp;rstuvwxyz01234&#39;6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abc&#39;efghijklmno&quot;qrstuv&amp;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefg&gt;ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr&lt;tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123&amp;56789abcdefghijklmnopqrstuv&gt;xyz0123456789abcdefghijklmnopqrstuvwxyz01234&quot;6789abcde&quot;ghijklmnopqrstuvwxyz01&#39;3456789abcdefgh&#39;jklmno&#39;qrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs&lt;uvwxyz0123456789abcdefghijklmnopqrstuvw&lt;yz0123456789abcdefghijklmnopqr&lt;tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcde&quot;ghijk&amp;mnopqrstuvwxy&#39;01234567&#39;9abcdefghi&lt;klmnopqrs&quot;uvwxyz0123456789abcdefghijklm&gt;opqrstuvwxyz01234&lt;6789abcd&quot;fghijklm&amp;o&#39;qrstuvwxyz0123456&lt;89abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&#39;mnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789&lt;bc&gt;efghijklmnopqrstuvwxyz0123456789abcde&#39;ghi&amp;klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef&#39;hijklmnopqrstuvwxyz0123456789&gt;&quot;cdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy&quot;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&#39;789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl&quot;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&lt;yz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy&quot;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&gt;st&#39;vwxy&#39;012345&lt;789abcdefghijklmno&lt;qrstuvwxyz0123456789a&amp;cdefghijklmnopq&lt;stuvwxyz0123456789a&#39;cdefghijkl&amp;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxy&#39;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&#39;789ab&gt;defghijkl&#39;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&quot;opqrstuvwxyz&quot;123456789abcdefgh&amp;jklmnopqrstuvwxyz0123456789abcd&#39;fghijklmnopqrstuvwxyz01234&lt;6789abcdefghijklmnopq&gt;stuvwxyz0&lt;23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghij&amp;lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvw&lt;yz0123456789abcdefghij&gt;lmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01&gt;3456789abcdefghijklm&#39;opqrstuvwxyz&#39;1234567&gt;9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst&quot;vwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&lt;abcdef&lt;hijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123&#39;56789abcdefghijklmnopqrstuvwxyz0123&#39;56789abcdefghijklmnopqrstuvwxyz0123456789&gt;bcdefghijklmnopqrstuvwxyz0123456&amp;89abcdefghijklmnopq&#39;stuvwxyz0123456789abcdefghij&quot;lm&#39;opq&amp;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456&lt;89abcdefghijklmnopqrstuvwxyz01234&lt;6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl&quot;nopqrstuvwxyz0123456789abcdefghijklmnopq&quot;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012&lt;456789ab&quot;&lt;efghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh&gt;jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&#39;"); end(b, w) } } } }
    h_22_w180(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(1) { _ => { let w = "23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\"stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs>"; if k { lit("<p id=\"23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&quot;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs&gt;\">"); esc(x); lit("</p>"); end(b, p!(id = "23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq\"stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs>", x)) } else { lit("23456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&quot;stuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs&gt;"); end(b, w) } } } }
    h_22_w181(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(1) { _ => { let w = "&456789ab<defgh<jklmnopqrstuvwxyz0123456789a'cdefghijklmnopqrstuvwxyz012345'789abcdefghijklmnopqrstuvwxyz012345678&abcdefg&ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst'vwxyz0123456789abcdefghijklmnopqrstuv>xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789<bcd>&ghijklmnopq\"stuvw>yz0123456789abcdefghijk<mnopqrstuvwxyz012345678&abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0\"23456789abcdefghijklmnopqrstuvwxyz01234567&9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr<tuvwxyz0123>56789abcdefghijklmnopqrstuv'xyz0123456789abcdefghijklmnopqrstuvwx>z0123456789abcdefghijklmnopqrs&uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq>'tuvwxyz01234\"6789abcdefghijklmnopqrstuvwxy<0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012>456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr&tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk<mnopqrstuvwxyz0123456789abcdef'<ijklmnopqrstuvwxyz0123456789abcdefghi>klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh>jkl&nopqr<tuvwxyz0123456789abcdefghijklmnop&rst\"vwxyz01>34567'9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\"opqrstuv\"xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn<pqrstuvwxyz0123456789abcdefgh'jklmnopqrs'uvwxyz0123456>89abcde>ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0'2345&789abcdefghijklmnopqrstuvwxyz01234567'9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop&rs<uvwxyz0123456789abcdefghijklmnop'rstuvwxyz0123456789'bcdefghijklmnopqrstuvwxéz0123456789abcde>ghijklmnopqrstuvwxyz01<3456789abcdefg'ijklmnopqrstuvwxyz0123456789abcdefghijklmnop'rstuvwxyz0123456789abcdefghijklmnop<rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\"jklmnopqrstuvwxyz0'23&56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&stuvwxyz0123456789abcd'fghijklmnopqrstuvwxyz01234567\"9abcdefghijklmnopqrstuvwxyz0123456\"89abcdefghijklmnopqrstuvwxyz0123456789ab\"defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv<xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl&nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&789abcdefgh<jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012'&56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs<uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\"jklmnopqrstu<wxyz0123456789abcdefghijklmnopqrstuvwx>z0123456789abcdefghi<klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\"\"56789abcdefghijklmnopqrstuvwxyz01>3456789abcdefghijklmnopqrstuvwxyz0123456789abcdef'hijklmnopqrstuvwxyz0123456789&bcdefghijklmnopqrstuvwxyz0123456789abcde>ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\"wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef'hijklmnopqrstuvwxyz01<3456789abcdefghijklmnopqrstuvwxyz0123456789abc>efghijklmnopqrstuvwxyz012345678&abcdefghijklmnopqrstuvwxy>01234>6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456&89abcdefghijklmnopqr<tuvwxyz0123456789abcdefgh\"jklmnopqrstuvwx\"z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst&vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456<89abcdefghijklmno'qrstuvwxyz0123456789abcdefghijklmnopqr&tuvwxyz0123456789abcdefghijklmn<pqrstuvwxyz012345678&abcdefghijklmnopqrstuvwxyz0123456789abcdefg<ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv"; if k { lit("&amp;456789ab&lt;defgh&lt;jklmnopqrstuvwxyz0123456789a&#39;cdefghijklmnopqrstuvwxyz012345&#39;789abcdefghijklmnopqrstuvwxyz012345678&amp;abcdefg&amp;ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst&#39;vwxyz0123456789abcdefghijklmnopqrstuv&gt;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789&lt;bcd&gt;&amp;ghijklmnopq&quot;stuvw&gt;yz0123456789abcdefghijk&lt;mnopqrstuvwxyz012345678&amp;abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0&quot;23456789abcdefghijklmnopqrstuvwxyz01234567&amp;9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr&lt;tuvwxyz0123&gt;56789abcdefghijklmnopqrstuv&#39;xyz0123456789abcdefghijklmnopqrstuvwx&gt;z0123456789abcdefghijklmnopqrs&amp;uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&gt;&#39;tuvwxyz01234&quot;6789abcdefghijklmnopqrstuvwxy&lt;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012&gt;456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr&amp;tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&lt;mnopqrstuvwxyz0123456789abcdef&#39;&lt;ijklmnopqrstuvwxyz0123456789abcdefghi&gt;klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh&gt;jkl&amp;nopqr&lt;tuvwxyz0123456789abcdefghijklmnop&amp;rst&quot;vwxyz01&gt;34567&#39;9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&quot;opqrstuv&quot;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&lt;pqrstuvwxyz0123456789abcdefgh&#39;jklmnopqrs&#39;uvwxyz0123456&gt;89abcde&gt;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0&#39;2345&amp;789abcdefghijklmnopqrstuvwxyz01234567&#39;9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop&amp;rs&lt;uvwxyz0123456789abcdefghijklmnop&#39;rstuvwxyz0123456789&#39;bcdefghijklmnopqrstuvwxéz0123456789abcde&gt;ghijklmnopqrstuvwxyz01&lt;3456789abcdefg&#39;ijklmnopqrstuvwxyz0123456789abcdefghijklmnop&#39;rstuvwxyz0123456789abcdefghijklmnop&lt;rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh&quot;jklmnopqrstuvwxyz0&#39;23&amp;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&amp;stuvwxyz0123456789abcd&#39;fghijklmnopqrstuvwxyz01234567&quot;9abcdefghijklmnopqrstuvwxyz0123456&quot;89abcdefghijklmnopqrstuvwxyz0123456789ab&quot;defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv&lt;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl&amp;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&amp;789abcdefgh&lt;jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012&#39;&amp;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs&lt;uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh&quot;jklmnopqrstu&lt;wxyz0123456789abcdefghijklmnopqrstuvwx&gt;z0123456789abcdefghi&lt;klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012&quot;&quot;56789abcdefghijklmnopqrstuvwxyz01&gt;3456789abcdefghijklmnopqrstuvwxyz0123456789abcdef&#39;hijklmnopqrstuvwxyz0123456789&amp;bcdefghijklmnopqrstuvwxyz0123456789abcde&gt;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu&quot;wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef&#39;hijklmnopqrstuvwxyz01&lt;3456789abcdefghijklmnopqrstuvwxyz0123456789abc&gt;efghijklmnopqrstuvwxyz012345678&amp;abcdefghijklmnopqrstuvwxy&gt;01234&gt;6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456&amp;89abcdefghijklmnopqr&lt;tuvwxyz0123456789abcdefgh&quot;jklmnopqrstuvwx&quot;z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst&amp;vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&amp;pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456&lt;89abcdefghijklmno&#39;qrstuvwxyz0123456789abcdefghijklmnopqr&amp;tuvwxyz0123456789abcdefghijklmn&lt;pqrstuvwxyz012345678&amp;abcdefghijklmnopqrstuvwxyz0123456789abcdefg&lt;ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv"); esc(x); lit("&amp;456789ab&lt;defgh&lt;jklm"); end(b, frag!("&456789ab<defgh<jklmnopqrstuvwxyz0123456789a'cdefghijklmnopqrstuvwxyz012345'789abcdefghijklmnopqrstuvwxyz012345678&abcdefg&ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst'vwxyz0123456789abcdefghijklmnopqrstuv>xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789<bcd>&ghijklmnopq\"stuvw>yz0123456789abcdefghijk<mnopqrstuvwxyz012345678&abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0\"23456789abcdefghijklmnopqrstuvwxyz01234567&9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr<tuvwxyz0123>56789abcdefghijklmnopqrstuv'xyz0123456789abcdefghijklmnopqrstuvwx>z0123456789abcdefghijklmnopqrs&uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq>'tuvwxyz01234\"6789abcdefghijklmnopqrstuvwxy<0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012>456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr&tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk<mnopqrstuvwxyz0123456789abcdef'<ijklmnopqrstuvwxyz0123456789abcdefghi>klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh>jkl&nopqr<tuvwxyz0123456789abcdefghijklmnop&rst\"vwxyz01>34567'9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm\"opqrstuv\"xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn<pqrstuvwxyz0123456789abcdefgh'jklmnopqrs'uvwxyz0123456>89abcde>ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0'2345&789abcdefghijklmnopqrstuvwxyz01234567'9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop&rs<uvwxyz0123456789abcdefghijklmnop'rstuvwxyz0123456789'bcdefghijklmnopqrstuvwxéz0123456789abcde>ghijklmnopqrstuvwxyz01<3456789abcdefg'ijklmnopqrstuvwxyz0123456789abcdefghijklmnop'rstuvwxyz0123456789abcdefghijklmnop<rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\"jklmnopqrstuvwxyz0'23&56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&stuvwxyz0123456789abcd'fghijklmnopqrstuvwxyz01234567\"9abcdefghijklmnopqrstuvwxyz0123456\"89abcdefghijklmnopqrstuvwxyz0123456789ab\"defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv<xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl&nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&789abcdefgh<jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012'&56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs<uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh\"jklmnopqrstu<wxyz0123456789abcdefghijklmnopqrstuvwx>z0123456789abcdefghi<klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012\"\"56789abcdefghijklmnopqrstuvwxyz01>3456789abcdefghijklmnopqrstuvwxyz0123456789abcdef'hijklmnopqrstuvwxyz0123456789&bcdefghijklmnopqrstuvwxyz0123456789abcde>ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu\"wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef'hijklmnopqrstuvwxyz01<3456789abcdefghijklmnopqrstuvwxyz0123456789abc>efghijklmnopqrstuvwxyz012345678&abcdefghijklmnopqrstuvwxy>01234>6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456&89abcdefghijklmnopqr<tuvwxyz0123456789abcdefgh\"jklmnopqrstuvwx\"z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst&vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456<89abcdefghijklmno'qrstuvwxyz0123456789abcdefghijklmnopqr&tuvwxyz0123456789abcdefghijklmn<pqrstuvwxyz012345678&abcdefghijklmnopqrstuvwxyz0123456789abcdefg<ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv", x, "&456789ab<defgh<jklm")) } else { lit("&amp;456789ab&lt;defgh&lt;jklmnopqrstuvwxyz0123456789a&#39;cdefghijklmnopqrstuvwxyz012345&#39;789abcdefghijklmnopqrstuvwxyz012345678&amp;abcdefg&amp;ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst&#39;vwxyz0123456789abcdefghijklmnopqrstuv&gt;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789&lt;bcd&gt;&amp;ghijklmnopq&quot;stuvw&gt;yz0123456789abcdefghijk&lt;mnopqrstuvwxyz012345678&amp;abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0&quot;23456789abcdefghijklmnopqrstuvwxyz01234567&amp;9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr&lt;tuvwxyz0123&gt;56789abcdefghijklmnopqrstuv&#39;xyz0123456789abcdefghijklmnopqrstuvwx&gt;z0123456789abcdefghijklmnopqrs&amp;uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&gt;&#39;tuvwxyz01234&quot;6789abcdefghijklmnopqrstuvwxy&lt;0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012&gt;456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqr&amp;tuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijk&lt;mnopqrstuvwxyz0123456789abcdef&#39;&lt;ijklmnopqrstuvwxyz0123456789abcdefghi&gt;klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh&gt;jkl&amp;nopqr&lt;tuvwxyz0123456789abcdefghijklmnop&amp;rst&quot;vwxyz01&gt;34567&#39;9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&quot;opqrstuv&quot;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&lt;pqrstuvwxyz0123456789abcdefgh&#39;jklmnopqrs&#39;uvwxyz0123456&gt;89abcde&gt;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0&#39;2345&amp;789abcdefghijklmnopqrstuvwxyz01234567&#39;9abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnop&amp;rs&lt;uvwxyz0123456789abcdefghijklmnop&#39;rstuvwxyz0123456789&#39;bcdefghijklmnopqrstuvwxéz0123456789abcde&gt;ghijklmnopqrstuvwxyz01&lt;3456789abcdefg&#39;ijklmnopqrstuvwxyz0123456789abcdefghijklmnop&#39;rstuvwxyz0123456789abcdefghijklmnop&lt;rstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh&quot;jklmnopqrstuvwxyz0&#39;23&amp;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopq&amp;stuvwxyz0123456789abcd&#39;fghijklmnopqrstuvwxyz01234567&quot;9abcdefghijklmnopqrstuvwxyz0123456&quot;89abcdefghijklmnopqrstuvwxyz0123456789ab&quot;defghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv&lt;xyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijkl&amp;nopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&amp;789abcdefgh&lt;jklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012&#39;&amp;56789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrs&lt;uvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefgh&quot;jklmnopqrstu&lt;wxyz0123456789abcdefghijklmnopqrstuvwx&gt;z0123456789abcdefghi&lt;klmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012&quot;&quot;56789abcdefghijklmnopqrstuvwxyz01&gt;3456789abcdefghijklmnopqrstuvwxyz0123456789abcdef&#39;hijklmnopqrstuvwxyz0123456789&amp;bcdefghijklmnopqrstuvwxyz0123456789abcde&gt;ghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstu&quot;wxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdef&#39;hijklmnopqrstuvwxyz01&lt;3456789abcdefghijklmnopqrstuvwxyz0123456789abc&gt;efghijklmnopqrstuvwxyz012345678&amp;abcdefghijklmnopqrstuvwxy&gt;01234&gt;6789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456&amp;89abcdefghijklmnopqr&lt;tuvwxyz0123456789abcdefgh&quot;jklmnopqrstuvwx&quot;z0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrst&amp;vwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmn&amp;pqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456&lt;89abcdefghijklmno&#39;qrstuvwxyz0123456789abcdefghijklmnopqr&amp;tuvwxyz0123456789abcdefghijklmn&lt;pqrstuvwxyz012345678&amp;abcdefghijklmnopqrstuvwxyz0123456789abcdefg&lt;ijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuv"); end(b, w) } } } }
    h_22_w182(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(1) { _ => { let w = "<789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm<opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01"; if k { lit("<p>&lt;789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&lt;opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01</p>"); end(b, p!("<789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm<opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01")) } else { lit("&lt;789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklm&lt;opqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz01"); end(b, w) } } } }
    h_22_w183(b) { let x = t(1); let v = u8_(); let k = bool_(); match choose(1) { _ => { let w = "<bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678'"; if k { lit("<p>&lt;bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&amp;789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&#39;</p>"); end(b, p!("<bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678'")) } else { lit("&lt;bcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345&amp;789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz012345678&#39;"); end(b, w) } } } }
}
