//! wide and deep templates (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
static POOL: [&str; 300] = ["p0", "p1", "p2", "p3<", "p4", "p5", "p6", "p7", "p8", "p9", "p10", "p11", "p12", "p13", "p14", "p15", "p16", "p17", "p18", "p19", "p20<", "p21", "p22", "p23", "p24", "p25", "p26", "p27", "p28", "p29", "p30", "p31", "p32", "p33", "p34", "p35", "p36", "p37<", "p38", "p39", "p40", "p41", "p42", "p43", "p44", "p45", "p46", "p47", "p48", "p49", "p50", "p51", "p52", "p53", "p54<", "p55", "p56", "p57", "p58", "p59", "p60", "p61", "p62", "p63", "p64", "p65", "p66", "p67", "p68", "p69", "p70", "p71<", "p72", "p73", "p74", "p75", "p76", "p77", "p78", "p79", "p80", "p81", "p82", "p83", "p84", "p85", "p86", "p87", "p88<", "p89", "p90", "p91", "p92", "p93", "p94", "p95", "p96", "p97", "p98", "p99", "p100", "p101", "p102", "p103", "p104", "p105<", "p106", "p107", "p108", "p109", "p110", "p111", "p112", "p113", "p114", "p115", "p116", "p117", "p118", "p119", "p120", "p121", "p122<", "p123", "p124", "p125", "p126", "p127", "p128", "p129", "p130", "p131", "p132", "p133", "p134", "p135", "p136", "p137", "p138", "p139<", "p140", "p141", "p142", "p143", "p144", "p145", "p146", "p147", "p148", "p149", "p150", "p151", "p152", "p153", "p154", "p155", "p156<", "p157", "p158", "p159", "p160", "p161", "p162", "p163", "p164", "p165", "p166", "p167", "p168", "p169", "p170", "p171", "p172", "p173<", "p174", "p175", "p176", "p177", "p178", "p179", "p180", "p181", "p182", "p183", "p184", "p185", "p186", "p187", "p188", "p189", "p190<", "p191", "p192", "p193", "p194", "p195", "p196", "p197", "p198", "p199", "p200", "p201", "p202", "p203", "p204", "p205", "p206", "p207<", "p208", "p209", "p210", "p211", "p212", "p213", "p214", "p215", "p216", "p217", "p218", "p219", "p220", "p221", "p222", "p223", "p224<", "p225", "p226", "p227", "p228", "p229", "p230", "p231", "p232", "p233", "p234", "p235", "p236", "p237", "p238", "p239", "p240", "p241<", "p242", "p243", "p244", "p245", "p246", "p247", "p248", "p249", "p250", "p251", "p252", "p253", "p254", "p255", "p256", "p257", "p258<", "p259", "p260", "p261", "p262", "p263", "p264", "p265", "p266", "p267", "p268", "p269", "p270", "p271", "p272", "p273", "p274", "p275<", "p276", "p277", "p278", "p279", "p280", "p281", "p282", "p283", "p284", "p285", "p286", "p287", "p288", "p289", "p290", "p291", "p292<", "p293", "p294", "p295", "p296", "p297", "p298", "p299"];
#[inline(never)] fn s(i: usize) -> &'static str { POOL[i] }
fn idf<T>(v: T) -> T { v }
case! {
    h_17_w007_0(b) { let j = each(u8_() as usize); assume(j <= 7); lit("<input"); if j != 0 { lit(" o0"); } if j == 1 { lit(" o1"); } if j == 2 { lit(" o2"); } if j != 3 { lit(" o3"); } if j == 4 { lit(" o4"); } if j == 5 { lit(" o5"); } if j != 6 { lit(" o6"); } lit(">"); end(b, input!(o0 = bool!(j != 0), o1 = bool!(j == 1), o2 = bool!(j == 2), o3 = bool!(j != 3), o4 = bool!(j == 4), o5 = bool!(j == 5), o6 = bool!(j != 6))) }
    h_17_w007_1(b) { let j = each(u8_() as usize); assume(j <= 7); lit("<input"); if j == 0 { lit(" p0"); } if j == 1 { lit(" o1"); } if j != 2 { lit(" o2"); } if j == 3 { lit(" o3"); } if j == 4 { lit(" p4"); } lit(" z4=\"p4\""); if j != 5 { lit(" o5"); } if j == 6 { lit(" o6"); } lit(">"); end(b, input!(s(0) = bool!(j == 0), o1 = bool!(j == 1), o2 = bool!(j != 2), o3 = bool!(j == 3), s(4) = bool!(j == 4), z4 = s(4), o5 = bool!(j != 5), w5 = bool!(false), o6 = bool!(j == 6))) }
    h_17_w008_0(b) { let j = each(u8_() as usize); assume(j <= 8); lit("<input"); if j != 0 { lit(" o0"); } if j == 1 { lit(" o1"); } if j == 2 { lit(" o2"); } if j != 3 { lit(" o3"); } if j == 4 { lit(" o4"); } if j == 5 { lit(" o5"); } if j != 6 { lit(" o6"); } if j == 7 { lit(" o7"); } lit(">"); end(b, input!(o0 = bool!(j != 0), o1 = bool!(j == 1), o2 = bool!(j == 2), o3 = bool!(j != 3), o4 = bool!(j == 4), o5 = bool!(j == 5), o6 = bool!(j != 6), o7 = bool!(j == 7))) }
    h_17_w008_1(b) { let j = each(u8_() as usize); assume(j <= 8); lit("<input"); if j == 0 { lit(" p0"); } if j == 1 { lit(" o1"); } if j != 2 { lit(" o2"); } if j == 3 { lit(" o3"); } if j == 4 { lit(" p4"); } lit(" z4=\"p4\""); if j != 5 { lit(" o5"); } if j == 6 { lit(" o6"); } if j == 7 { lit(" o7"); } lit(">"); end(b, input!(s(0) = bool!(j == 0), o1 = bool!(j == 1), o2 = bool!(j != 2), o3 = bool!(j == 3), s(4) = bool!(j == 4), z4 = s(4), o5 = bool!(j != 5), w5 = bool!(false), o6 = bool!(j == 6), o7 = bool!(j == 7))) }
    h_17_w009_0(b) { let j = each(u8_() as usize); assume(j <= 9); lit("<input"); if j != 0 { lit(" o0"); } if j == 1 { lit(" o1"); } if j == 2 { lit(" o2"); } if j != 3 { lit(" o3"); } if j == 4 { lit(" o4"); } if j == 5 { lit(" o5"); } if j != 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j == 8 { lit(" o8"); } lit(">"); end(b, input!(o0 = bool!(j != 0), o1 = bool!(j == 1), o2 = bool!(j == 2), o3 = bool!(j != 3), o4 = bool!(j == 4), o5 = bool!(j == 5), o6 = bool!(j != 6), o7 = bool!(j == 7), o8 = bool!(j == 8))) }
    h_17_w009_1(b) { let j = each(u8_() as usize); assume(j <= 9); lit("<input"); if j == 0 { lit(" p0"); } if j == 1 { lit(" o1"); } if j != 2 { lit(" o2"); } if j == 3 { lit(" o3"); } if j == 4 { lit(" p4"); } lit(" z4=\"p4\""); if j != 5 { lit(" o5"); } if j == 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j != 8 { lit(" p8"); } lit(">"); end(b, input!(s(0) = bool!(j == 0), o1 = bool!(j == 1), o2 = bool!(j != 2), o3 = bool!(j == 3), s(4) = bool!(j == 4), z4 = s(4), o5 = bool!(j != 5), w5 = bool!(false), o6 = bool!(j == 6), o7 = bool!(j == 7), s(8) = bool!(j != 8))) }
    h_17_w010_0(b) { let j = each(u8_() as usize); assume(j <= 10); lit("<input"); if j != 0 { lit(" o0"); } if j == 1 { lit(" o1"); } if j == 2 { lit(" o2"); } if j != 3 { lit(" o3"); } if j == 4 { lit(" o4"); } if j == 5 { lit(" o5"); } if j != 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j == 8 { lit(" o8"); } if j != 9 { lit(" o9"); } lit(">"); end(b, input!(o0 = bool!(j != 0), o1 = bool!(j == 1), o2 = bool!(j == 2), o3 = bool!(j != 3), o4 = bool!(j == 4), o5 = bool!(j == 5), o6 = bool!(j != 6), o7 = bool!(j == 7), o8 = bool!(j == 8), o9 = bool!(j != 9))) }
    h_17_w010_1(b) { let j = each(u8_() as usize); assume(j <= 10); lit("<input"); if j == 0 { lit(" p0"); } if j == 1 { lit(" o1"); } if j != 2 { lit(" o2"); } if j == 3 { lit(" o3"); } if j == 4 { lit(" p4"); } lit(" z4=\"p4\""); if j != 5 { lit(" o5"); } if j == 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j != 8 { lit(" p8"); } if j == 9 { lit(" o9"); } lit(">"); end(b, input!(s(0) = bool!(j == 0), o1 = bool!(j == 1), o2 = bool!(j != 2), o3 = bool!(j == 3), s(4) = bool!(j == 4), z4 = s(4), o5 = bool!(j != 5), w5 = bool!(false), o6 = bool!(j == 6), o7 = bool!(j == 7), s(8) = bool!(j != 8), o9 = bool!(j == 9))) }
    h_17_w015_0(b) { let j = each(u8_() as usize); assume(j <= 15); lit("<input"); if j != 0 { lit(" o0"); } if j == 1 { lit(" o1"); } if j == 2 { lit(" o2"); } if j != 3 { lit(" o3"); } if j == 4 { lit(" o4"); } if j == 5 { lit(" o5"); } if j != 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j == 8 { lit(" o8"); } if j != 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j == 11 { lit(" o11"); } if j != 12 { lit(" o12"); } if j == 13 { lit(" o13"); } if j == 14 { lit(" o14"); } lit(">"); end(b, input!(o0 = bool!(j != 0), o1 = bool!(j == 1), o2 = bool!(j == 2), o3 = bool!(j != 3), o4 = bool!(j == 4), o5 = bool!(j == 5), o6 = bool!(j != 6), o7 = bool!(j == 7), o8 = bool!(j == 8), o9 = bool!(j != 9), o10 = bool!(j == 10), o11 = bool!(j == 11), o12 = bool!(j != 12), o13 = bool!(j == 13), o14 = bool!(j == 14))) }
    h_17_w015_1(b) { let j = each(u8_() as usize); assume(j <= 15); lit("<input"); if j == 0 { lit(" p0"); } if j == 1 { lit(" o1"); } if j != 2 { lit(" o2"); } if j == 3 { lit(" o3"); } if j == 4 { lit(" p4"); } lit(" z4=\"p4\""); if j != 5 { lit(" o5"); } if j == 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j != 8 { lit(" p8"); } if j == 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j != 11 { lit(" o11"); } if j == 12 { lit(" p12"); } if j == 13 { lit(" o13"); } lit(" z13=\"p13\""); if j != 14 { lit(" o14"); } lit(">"); end(b, input!(s(0) = bool!(j == 0), o1 = bool!(j == 1), o2 = bool!(j != 2), o3 = bool!(j == 3), s(4) = bool!(j == 4), z4 = s(4), o5 = bool!(j != 5), w5 = bool!(false), o6 = bool!(j == 6), o7 = bool!(j == 7), s(8) = bool!(j != 8), o9 = bool!(j == 9), o10 = bool!(j == 10), o11 = bool!(j != 11), s(12) = bool!(j == 12), o13 = bool!(j == 13), z13 = s(13), o14 = bool!(j != 14))) }
    h_17_w016_0(b) { let j = each(u8_() as usize); assume(j <= 16); lit("<input"); if j != 0 { lit(" o0"); } if j == 1 { lit(" o1"); } if j == 2 { lit(" o2"); } if j != 3 { lit(" o3"); } if j == 4 { lit(" o4"); } if j == 5 { lit(" o5"); } if j != 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j == 8 { lit(" o8"); } if j != 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j == 11 { lit(" o11"); } if j != 12 { lit(" o12"); } if j == 13 { lit(" o13"); } if j == 14 { lit(" o14"); } if j != 15 { lit(" o15"); } lit(">"); end(b, input!(o0 = bool!(j != 0), o1 = bool!(j == 1), o2 = bool!(j == 2), o3 = bool!(j != 3), o4 = bool!(j == 4), o5 = bool!(j == 5), o6 = bool!(j != 6), o7 = bool!(j == 7), o8 = bool!(j == 8), o9 = bool!(j != 9), o10 = bool!(j == 10), o11 = bool!(j == 11), o12 = bool!(j != 12), o13 = bool!(j == 13), o14 = bool!(j == 14), o15 = bool!(j != 15))) }
    h_17_w016_1(b) { let j = each(u8_() as usize); assume(j <= 16); lit("<input"); if j == 0 { lit(" p0"); } if j == 1 { lit(" o1"); } if j != 2 { lit(" o2"); } if j == 3 { lit(" o3"); } if j == 4 { lit(" p4"); } lit(" z4=\"p4\""); if j != 5 { lit(" o5"); } if j == 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j != 8 { lit(" p8"); } if j == 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j != 11 { lit(" o11"); } if j == 12 { lit(" p12"); } if j == 13 { lit(" o13"); } lit(" z13=\"p13\""); if j != 14 { lit(" o14"); } if j == 15 { lit(" o15"); } lit(">"); end(b, input!(s(0) = bool!(j == 0), o1 = bool!(j == 1), o2 = bool!(j != 2), o3 = bool!(j == 3), s(4) = bool!(j == 4), z4 = s(4), o5 = bool!(j != 5), w5 = bool!(false), o6 = bool!(j == 6), o7 = bool!(j == 7), s(8) = bool!(j != 8), o9 = bool!(j == 9), o10 = bool!(j == 10), o11 = bool!(j != 11), s(12) = bool!(j == 12), o13 = bool!(j == 13), z13 = s(13), o14 = bool!(j != 14), o15 = bool!(j == 15))) }
    h_17_w017_0(b) { let j = each(u8_() as usize); assume(j <= 17); lit("<input"); if j != 0 { lit(" o0"); } if j == 1 { lit(" o1"); } if j == 2 { lit(" o2"); } if j != 3 { lit(" o3"); } if j == 4 { lit(" o4"); } if j == 5 { lit(" o5"); } if j != 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j == 8 { lit(" o8"); } if j != 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j == 11 { lit(" o11"); } if j != 12 { lit(" o12"); } if j == 13 { lit(" o13"); } if j == 14 { lit(" o14"); } if j != 15 { lit(" o15"); } if j == 16 { lit(" o16"); } lit(">"); end(b, input!(o0 = bool!(j != 0), o1 = bool!(j == 1), o2 = bool!(j == 2), o3 = bool!(j != 3), o4 = bool!(j == 4), o5 = bool!(j == 5), o6 = bool!(j != 6), o7 = bool!(j == 7), o8 = bool!(j == 8), o9 = bool!(j != 9), o10 = bool!(j == 10), o11 = bool!(j == 11), o12 = bool!(j != 12), o13 = bool!(j == 13), o14 = bool!(j == 14), o15 = bool!(j != 15), o16 = bool!(j == 16))) }
    h_17_w017_1(b) { let j = each(u8_() as usize); assume(j <= 17); lit("<input"); if j == 0 { lit(" p0"); } if j == 1 { lit(" o1"); } if j != 2 { lit(" o2"); } if j == 3 { lit(" o3"); } if j == 4 { lit(" p4"); } lit(" z4=\"p4\""); if j != 5 { lit(" o5"); } if j == 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j != 8 { lit(" p8"); } if j == 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j != 11 { lit(" o11"); } if j == 12 { lit(" p12"); } if j == 13 { lit(" o13"); } lit(" z13=\"p13\""); if j != 14 { lit(" o14"); } if j == 15 { lit(" o15"); } if j == 16 { lit(" p16"); } lit(" w16>"); end(b, input!(s(0) = bool!(j == 0), o1 = bool!(j == 1), o2 = bool!(j != 2), o3 = bool!(j == 3), s(4) = bool!(j == 4), z4 = s(4), o5 = bool!(j != 5), w5 = bool!(false), o6 = bool!(j == 6), o7 = bool!(j == 7), s(8) = bool!(j != 8), o9 = bool!(j == 9), o10 = bool!(j == 10), o11 = bool!(j != 11), s(12) = bool!(j == 12), o13 = bool!(j == 13), z13 = s(13), o14 = bool!(j != 14), o15 = bool!(j == 15), s(16) = bool!(j == 16), w16 = bool!(true))) }
    h_17_w031_0(b) { let j = each(u8_() as usize); assume(j <= 31); lit("<input"); if j != 0 { lit(" o0"); } if j == 1 { lit(" o1"); } if j == 2 { lit(" o2"); } if j != 3 { lit(" o3"); } if j == 4 { lit(" o4"); } if j == 5 { lit(" o5"); } if j != 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j == 8 { lit(" o8"); } if j != 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j == 11 { lit(" o11"); } if j != 12 { lit(" o12"); } if j == 13 { lit(" o13"); } if j == 14 { lit(" o14"); } if j != 15 { lit(" o15"); } if j == 16 { lit(" o16"); } if j == 17 { lit(" o17"); } if j != 18 { lit(" o18"); } if j == 19 { lit(" o19"); } if j == 20 { lit(" o20"); } if j != 21 { lit(" o21"); } if j == 22 { lit(" o22"); } if j == 23 { lit(" o23"); } if j != 24 { lit(" o24"); } if j == 25 { lit(" o25"); } if j == 26 { lit(" o26"); } if j != 27 { lit(" o27"); } if j == 28 { lit(" o28"); } if j == 29 { lit(" o29"); } if j != 30 { lit(" o30"); } lit(">"); end(b, input!(o0 = bool!(j != 0), o1 = bool!(j == 1), o2 = bool!(j == 2), o3 = bool!(j != 3), o4 = bool!(j == 4), o5 = bool!(j == 5), o6 = bool!(j != 6), o7 = bool!(j == 7), o8 = bool!(j == 8), o9 = bool!(j != 9), o10 = bool!(j == 10), o11 = bool!(j == 11), o12 = bool!(j != 12), o13 = bool!(j == 13), o14 = bool!(j == 14), o15 = bool!(j != 15), o16 = bool!(j == 16), o17 = bool!(j == 17), o18 = bool!(j != 18), o19 = bool!(j == 19), o20 = bool!(j == 20), o21 = bool!(j != 21), o22 = bool!(j == 22), o23 = bool!(j == 23), o24 = bool!(j != 24), o25 = bool!(j == 25), o26 = bool!(j == 26), o27 = bool!(j != 27), o28 = bool!(j == 28), o29 = bool!(j == 29), o30 = bool!(j != 30))) }
    h_17_w031_1(b) { let j = each(u8_() as usize); assume(j <= 31); lit("<input"); if j == 0 { lit(" p0"); } if j == 1 { lit(" o1"); } if j != 2 { lit(" o2"); } if j == 3 { lit(" o3"); } if j == 4 { lit(" p4"); } lit(" z4=\"p4\""); if j != 5 { lit(" o5"); } if j == 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j != 8 { lit(" p8"); } if j == 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j != 11 { lit(" o11"); } if j == 12 { lit(" p12"); } if j == 13 { lit(" o13"); } lit(" z13=\"p13\""); if j != 14 { lit(" o14"); } if j == 15 { lit(" o15"); } if j == 16 { lit(" p16"); } lit(" w16"); if j != 17 { lit(" o17"); } if j == 18 { lit(" o18"); } if j == 19 { lit(" o19"); } if j != 20 { lit(" p20&lt;"); } if j == 21 { lit(" o21"); } if j == 22 { lit(" o22"); } lit(" z22=\"p22\""); if j != 23 { lit(" o23"); } if j == 24 { lit(" p24"); } if j == 25 { lit(" o25"); } if j != 26 { lit(" o26"); } if j == 27 { lit(" o27"); } if j == 28 { lit(" p28"); } if j != 29 { lit(" o29"); } if j == 30 { lit(" o30"); } lit(">"); end(b, input!(s(0) = bool!(j == 0), o1 = bool!(j == 1), o2 = bool!(j != 2), o3 = bool!(j == 3), s(4) = bool!(j == 4), z4 = s(4), o5 = bool!(j != 5), w5 = bool!(false), o6 = bool!(j == 6), o7 = bool!(j == 7), s(8) = bool!(j != 8), o9 = bool!(j == 9), o10 = bool!(j == 10), o11 = bool!(j != 11), s(12) = bool!(j == 12), o13 = bool!(j == 13), z13 = s(13), o14 = bool!(j != 14), o15 = bool!(j == 15), s(16) = bool!(j == 16), w16 = bool!(true), o17 = bool!(j != 17), o18 = bool!(j == 18), o19 = bool!(j == 19), s(20) = bool!(j != 20), o21 = bool!(j == 21), o22 = bool!(j == 22), z22 = s(22), o23 = bool!(j != 23), s(24) = bool!(j == 24), o25 = bool!(j == 25), o26 = bool!(j != 26), o27 = bool!(j == 27), w27 = bool!(false), s(28) = bool!(j == 28), o29 = bool!(j != 29), o30 = bool!(j == 30))) }
    h_17_w032_0(b) { let j = each(u8_() as usize); assume(j <= 32); lit("<input"); if j != 0 { lit(" o0"); } if j == 1 { lit(" o1"); } if j == 2 { lit(" o2"); } if j != 3 { lit(" o3"); } if j == 4 { lit(" o4"); } if j == 5 { lit(" o5"); } if j != 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j == 8 { lit(" o8"); } if j != 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j == 11 { lit(" o11"); } if j != 12 { lit(" o12"); } if j == 13 { lit(" o13"); } if j == 14 { lit(" o14"); } if j != 15 { lit(" o15"); } if j == 16 { lit(" o16"); } if j == 17 { lit(" o17"); } if j != 18 { lit(" o18"); } if j == 19 { lit(" o19"); } if j == 20 { lit(" o20"); } if j != 21 { lit(" o21"); } if j == 22 { lit(" o22"); } if j == 23 { lit(" o23"); } if j != 24 { lit(" o24"); } if j == 25 { lit(" o25"); } if j == 26 { lit(" o26"); } if j != 27 { lit(" o27"); } if j == 28 { lit(" o28"); } if j == 29 { lit(" o29"); } if j != 30 { lit(" o30"); } if j == 31 { lit(" o31"); } lit(">"); end(b, input!(o0 = bool!(j != 0), o1 = bool!(j == 1), o2 = bool!(j == 2), o3 = bool!(j != 3), o4 = bool!(j == 4), o5 = bool!(j == 5), o6 = bool!(j != 6), o7 = bool!(j == 7), o8 = bool!(j == 8), o9 = bool!(j != 9), o10 = bool!(j == 10), o11 = bool!(j == 11), o12 = bool!(j != 12), o13 = bool!(j == 13), o14 = bool!(j == 14), o15 = bool!(j != 15), o16 = bool!(j == 16), o17 = bool!(j == 17), o18 = bool!(j != 18), o19 = bool!(j == 19), o20 = bool!(j == 20), o21 = bool!(j != 21), o22 = bool!(j == 22), o23 = bool!(j == 23), o24 = bool!(j != 24), o25 = bool!(j == 25), o26 = bool!(j == 26), o27 = bool!(j != 27), o28 = bool!(j == 28), o29 = bool!(j == 29), o30 = bool!(j != 30), o31 = bool!(j == 31))) }
    h_17_w032_1(b) { let j = each(u8_() as usize); assume(j <= 32); lit("<input"); if j == 0 { lit(" p0"); } if j == 1 { lit(" o1"); } if j != 2 { lit(" o2"); } if j == 3 { lit(" o3"); } if j == 4 { lit(" p4"); } lit(" z4=\"p4\""); if j != 5 { lit(" o5"); } if j == 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j != 8 { lit(" p8"); } if j == 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j != 11 { lit(" o11"); } if j == 12 { lit(" p12"); } if j == 13 { lit(" o13"); } lit(" z13=\"p13\""); if j != 14 { lit(" o14"); } if j == 15 { lit(" o15"); } if j == 16 { lit(" p16"); } lit(" w16"); if j != 17 { lit(" o17"); } if j == 18 { lit(" o18"); } if j == 19 { lit(" o19"); } if j != 20 { lit(" p20&lt;"); } if j == 21 { lit(" o21"); } if j == 22 { lit(" o22"); } lit(" z22=\"p22\""); if j != 23 { lit(" o23"); } if j == 24 { lit(" p24"); } if j == 25 { lit(" o25"); } if j != 26 { lit(" o26"); } if j == 27 { lit(" o27"); } if j == 28 { lit(" p28"); } if j != 29 { lit(" o29"); } if j == 30 { lit(" o30"); } if j == 31 { lit(" o31"); } lit(" z31=\"p31\">"); end(b, input!(s(0) = bool!(j == 0), o1 = bool!(j == 1), o2 = bool!(j != 2), o3 = bool!(j == 3), s(4) = bool!(j == 4), z4 = s(4), o5 = bool!(j != 5), w5 = bool!(false), o6 = bool!(j == 6), o7 = bool!(j == 7), s(8) = bool!(j != 8), o9 = bool!(j == 9), o10 = bool!(j == 10), o11 = bool!(j != 11), s(12) = bool!(j == 12), o13 = bool!(j == 13), z13 = s(13), o14 = bool!(j != 14), o15 = bool!(j == 15), s(16) = bool!(j == 16), w16 = bool!(true), o17 = bool!(j != 17), o18 = bool!(j == 18), o19 = bool!(j == 19), s(20) = bool!(j != 20), o21 = bool!(j == 21), o22 = bool!(j == 22), z22 = s(22), o23 = bool!(j != 23), s(24) = bool!(j == 24), o25 = bool!(j == 25), o26 = bool!(j != 26), o27 = bool!(j == 27), w27 = bool!(false), s(28) = bool!(j == 28), o29 = bool!(j != 29), o30 = bool!(j == 30), o31 = bool!(j == 31), z31 = s(31))) }
    h_17_w033_0(b) { let j = each(u8_() as usize); assume(j <= 33); lit("<input"); if j != 0 { lit(" o0"); } if j == 1 { lit(" o1"); } if j == 2 { lit(" o2"); } if j != 3 { lit(" o3"); } if j == 4 { lit(" o4"); } if j == 5 { lit(" o5"); } if j != 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j == 8 { lit(" o8"); } if j != 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j == 11 { lit(" o11"); } if j != 12 { lit(" o12"); } if j == 13 { lit(" o13"); } if j == 14 { lit(" o14"); } if j != 15 { lit(" o15"); } if j == 16 { lit(" o16"); } if j == 17 { lit(" o17"); } if j != 18 { lit(" o18"); } if j == 19 { lit(" o19"); } if j == 20 { lit(" o20"); } if j != 21 { lit(" o21"); } if j == 22 { lit(" o22"); } if j == 23 { lit(" o23"); } if j != 24 { lit(" o24"); } if j == 25 { lit(" o25"); } if j == 26 { lit(" o26"); } if j != 27 { lit(" o27"); } if j == 28 { lit(" o28"); } if j == 29 { lit(" o29"); } if j != 30 { lit(" o30"); } if j == 31 { lit(" o31"); } if j == 32 { lit(" o32"); } lit(">"); end(b, input!(o0 = bool!(j != 0), o1 = bool!(j == 1), o2 = bool!(j == 2), o3 = bool!(j != 3), o4 = bool!(j == 4), o5 = bool!(j == 5), o6 = bool!(j != 6), o7 = bool!(j == 7), o8 = bool!(j == 8), o9 = bool!(j != 9), o10 = bool!(j == 10), o11 = bool!(j == 11), o12 = bool!(j != 12), o13 = bool!(j == 13), o14 = bool!(j == 14), o15 = bool!(j != 15), o16 = bool!(j == 16), o17 = bool!(j == 17), o18 = bool!(j != 18), o19 = bool!(j == 19), o20 = bool!(j == 20), o21 = bool!(j != 21), o22 = bool!(j == 22), o23 = bool!(j == 23), o24 = bool!(j != 24), o25 = bool!(j == 25), o26 = bool!(j == 26), o27 = bool!(j != 27), o28 = bool!(j == 28), o29 = bool!(j == 29), o30 = bool!(j != 30), o31 = bool!(j == 31), o32 = bool!(j == 32))) }
    h_17_w033_1(b) { let j = each(u8_() as usize); assume(j <= 33); lit("<input"); if j == 0 { lit(" p0"); } if j == 1 { lit(" o1"); } if j != 2 { lit(" o2"); } if j == 3 { lit(" o3"); } if j == 4 { lit(" p4"); } lit(" z4=\"p4\""); if j != 5 { lit(" o5"); } if j == 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j != 8 { lit(" p8"); } if j == 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j != 11 { lit(" o11"); } if j == 12 { lit(" p12"); } if j == 13 { lit(" o13"); } lit(" z13=\"p13\""); if j != 14 { lit(" o14"); } if j == 15 { lit(" o15"); } if j == 16 { lit(" p16"); } lit(" w16"); if j != 17 { lit(" o17"); } if j == 18 { lit(" o18"); } if j == 19 { lit(" o19"); } if j != 20 { lit(" p20&lt;"); } if j == 21 { lit(" o21"); } if j == 22 { lit(" o22"); } lit(" z22=\"p22\""); if j != 23 { lit(" o23"); } if j == 24 { lit(" p24"); } if j == 25 { lit(" o25"); } if j != 26 { lit(" o26"); } if j == 27 { lit(" o27"); } if j == 28 { lit(" p28"); } if j != 29 { lit(" o29"); } if j == 30 { lit(" o30"); } if j == 31 { lit(" o31"); } lit(" z31=\"p31\""); if j != 32 { lit(" p32"); } lit(">"); end(b, input!(s(0) = bool!(j == 0), o1 = bool!(j == 1), o2 = bool!(j != 2), o3 = bool!(j == 3), s(4) = bool!(j == 4), z4 = s(4), o5 = bool!(j != 5), w5 = bool!(false), o6 = bool!(j == 6), o7 = bool!(j == 7), s(8) = bool!(j != 8), o9 = bool!(j == 9), o10 = bool!(j == 10), o11 = bool!(j != 11), s(12) = bool!(j == 12), o13 = bool!(j == 13), z13 = s(13), o14 = bool!(j != 14), o15 = bool!(j == 15), s(16) = bool!(j == 16), w16 = bool!(true), o17 = bool!(j != 17), o18 = bool!(j == 18), o19 = bool!(j == 19), s(20) = bool!(j != 20), o21 = bool!(j == 21), o22 = bool!(j == 22), z22 = s(22), o23 = bool!(j != 23), s(24) = bool!(j == 24), o25 = bool!(j == 25), o26 = bool!(j != 26), o27 = bool!(j == 27), w27 = bool!(false), s(28) = bool!(j == 28), o29 = bool!(j != 29), o30 = bool!(j == 30), o31 = bool!(j == 31), z31 = s(31), s(32) = bool!(j != 32))) }
    h_17_w040_0(b) { let j = each(u8_() as usize); assume(j <= 40); lit("<input"); if j != 0 { lit(" o0"); } if j == 1 { lit(" o1"); } if j == 2 { lit(" o2"); } if j != 3 { lit(" o3"); } if j == 4 { lit(" o4"); } if j == 5 { lit(" o5"); } if j != 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j == 8 { lit(" o8"); } if j != 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j == 11 { lit(" o11"); } if j != 12 { lit(" o12"); } if j == 13 { lit(" o13"); } if j == 14 { lit(" o14"); } if j != 15 { lit(" o15"); } if j == 16 { lit(" o16"); } if j == 17 { lit(" o17"); } if j != 18 { lit(" o18"); } if j == 19 { lit(" o19"); } if j == 20 { lit(" o20"); } if j != 21 { lit(" o21"); } if j == 22 { lit(" o22"); } if j == 23 { lit(" o23"); } if j != 24 { lit(" o24"); } if j == 25 { lit(" o25"); } if j == 26 { lit(" o26"); } if j != 27 { lit(" o27"); } if j == 28 { lit(" o28"); } if j == 29 { lit(" o29"); } if j != 30 { lit(" o30"); } if j == 31 { lit(" o31"); } if j == 32 { lit(" o32"); } if j != 33 { lit(" o33"); } if j == 34 { lit(" o34"); } if j == 35 { lit(" o35"); } if j != 36 { lit(" o36"); } if j == 37 { lit(" o37"); } if j == 38 { lit(" o38"); } if j != 39 { lit(" o39"); } lit(">"); end(b, input!(o0 = bool!(j != 0), o1 = bool!(j == 1), o2 = bool!(j == 2), o3 = bool!(j != 3), o4 = bool!(j == 4), o5 = bool!(j == 5), o6 = bool!(j != 6), o7 = bool!(j == 7), o8 = bool!(j == 8), o9 = bool!(j != 9), o10 = bool!(j == 10), o11 = bool!(j == 11), o12 = bool!(j != 12), o13 = bool!(j == 13), o14 = bool!(j == 14), o15 = bool!(j != 15), o16 = bool!(j == 16), o17 = bool!(j == 17), o18 = bool!(j != 18), o19 = bool!(j == 19), o20 = bool!(j == 20), o21 = bool!(j != 21), o22 = bool!(j == 22), o23 = bool!(j == 23), o24 = bool!(j != 24), o25 = bool!(j == 25), o26 = bool!(j == 26), o27 = bool!(j != 27), o28 = bool!(j == 28), o29 = bool!(j == 29), o30 = bool!(j != 30), o31 = bool!(j == 31), o32 = bool!(j == 32), o33 = bool!(j != 33), o34 = bool!(j == 34), o35 = bool!(j == 35), o36 = bool!(j != 36), o37 = bool!(j == 37), o38 = bool!(j == 38), o39 = bool!(j != 39))) }
    h_17_w040_1(b) { let j = each(u8_() as usize); assume(j <= 40); lit("<input"); if j == 0 { lit(" p0"); } if j == 1 { lit(" o1"); } if j != 2 { lit(" o2"); } if j == 3 { lit(" o3"); } if j == 4 { lit(" p4"); } lit(" z4=\"p4\""); if j != 5 { lit(" o5"); } if j == 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j != 8 { lit(" p8"); } if j == 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j != 11 { lit(" o11"); } if j == 12 { lit(" p12"); } if j == 13 { lit(" o13"); } lit(" z13=\"p13\""); if j != 14 { lit(" o14"); } if j == 15 { lit(" o15"); } if j == 16 { lit(" p16"); } lit(" w16"); if j != 17 { lit(" o17"); } if j == 18 { lit(" o18"); } if j == 19 { lit(" o19"); } if j != 20 { lit(" p20&lt;"); } if j == 21 { lit(" o21"); } if j == 22 { lit(" o22"); } lit(" z22=\"p22\""); if j != 23 { lit(" o23"); } if j == 24 { lit(" p24"); } if j == 25 { lit(" o25"); } if j != 26 { lit(" o26"); } if j == 27 { lit(" o27"); } if j == 28 { lit(" p28"); } if j != 29 { lit(" o29"); } if j == 30 { lit(" o30"); } if j == 31 { lit(" o31"); } lit(" z31=\"p31\""); if j != 32 { lit(" p32"); } if j == 33 { lit(" o33"); } if j == 34 { lit(" o34"); } if j != 35 { lit(" o35"); } if j == 36 { lit(" p36"); } if j == 37 { lit(" o37"); } if j != 38 { lit(" o38"); } lit(" w38"); if j == 39 { lit(" o39"); } lit(">"); end(b, input!(s(0) = bool!(j == 0), o1 = bool!(j == 1), o2 = bool!(j != 2), o3 = bool!(j == 3), s(4) = bool!(j == 4), z4 = s(4), o5 = bool!(j != 5), w5 = bool!(false), o6 = bool!(j == 6), o7 = bool!(j == 7), s(8) = bool!(j != 8), o9 = bool!(j == 9), o10 = bool!(j == 10), o11 = bool!(j != 11), s(12) = bool!(j == 12), o13 = bool!(j == 13), z13 = s(13), o14 = bool!(j != 14), o15 = bool!(j == 15), s(16) = bool!(j == 16), w16 = bool!(true), o17 = bool!(j != 17), o18 = bool!(j == 18), o19 = bool!(j == 19), s(20) = bool!(j != 20), o21 = bool!(j == 21), o22 = bool!(j == 22), z22 = s(22), o23 = bool!(j != 23), s(24) = bool!(j == 24), o25 = bool!(j == 25), o26 = bool!(j != 26), o27 = bool!(j == 27), w27 = bool!(false), s(28) = bool!(j == 28), o29 = bool!(j != 29), o30 = bool!(j == 30), o31 = bool!(j == 31), z31 = s(31), s(32) = bool!(j != 32), o33 = bool!(j == 33), o34 = bool!(j == 34), o35 = bool!(j != 35), s(36) = bool!(j == 36), o37 = bool!(j == 37), o38 = bool!(j != 38), w38 = bool!(true), o39 = bool!(j == 39))) }
    h_17_w063_0(b) { let j = each(u8_() as usize); assume(j <= 63); lit("<input"); if j != 0 { lit(" o0"); } if j == 1 { lit(" o1"); } if j == 2 { lit(" o2"); } if j != 3 { lit(" o3"); } if j == 4 { lit(" o4"); } if j == 5 { lit(" o5"); } if j != 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j == 8 { lit(" o8"); } if j != 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j == 11 { lit(" o11"); } if j != 12 { lit(" o12"); } if j == 13 { lit(" o13"); } if j == 14 { lit(" o14"); } if j != 15 { lit(" o15"); } if j == 16 { lit(" o16"); } if j == 17 { lit(" o17"); } if j != 18 { lit(" o18"); } if j == 19 { lit(" o19"); } if j == 20 { lit(" o20"); } if j != 21 { lit(" o21"); } if j == 22 { lit(" o22"); } if j == 23 { lit(" o23"); } if j != 24 { lit(" o24"); } if j == 25 { lit(" o25"); } if j == 26 { lit(" o26"); } if j != 27 { lit(" o27"); } if j == 28 { lit(" o28"); } if j == 29 { lit(" o29"); } if j != 30 { lit(" o30"); } if j == 31 { lit(" o31"); } if j == 32 { lit(" o32"); } if j != 33 { lit(" o33"); } if j == 34 { lit(" o34"); } if j == 35 { lit(" o35"); } if j != 36 { lit(" o36"); } if j == 37 { lit(" o37"); } if j == 38 { lit(" o38"); } if j != 39 { lit(" o39"); } if j == 40 { lit(" o40"); } if j == 41 { lit(" o41"); } if j != 42 { lit(" o42"); } if j == 43 { lit(" o43"); } if j == 44 { lit(" o44"); } if j != 45 { lit(" o45"); } if j == 46 { lit(" o46"); } if j == 47 { lit(" o47"); } if j != 48 { lit(" o48"); } if j == 49 { lit(" o49"); } if j == 50 { lit(" o50"); } if j != 51 { lit(" o51"); } if j == 52 { lit(" o52"); } if j == 53 { lit(" o53"); } if j != 54 { lit(" o54"); } if j == 55 { lit(" o55"); } if j == 56 { lit(" o56"); } if j != 57 { lit(" o57"); } if j == 58 { lit(" o58"); } if j == 59 { lit(" o59"); } if j != 60 { lit(" o60"); } if j == 61 { lit(" o61"); } if j == 62 { lit(" o62"); } lit(">"); end(b, input!(o0 = bool!(j != 0), o1 = bool!(j == 1), o2 = bool!(j == 2), o3 = bool!(j != 3), o4 = bool!(j == 4), o5 = bool!(j == 5), o6 = bool!(j != 6), o7 = bool!(j == 7), o8 = bool!(j == 8), o9 = bool!(j != 9), o10 = bool!(j == 10), o11 = bool!(j == 11), o12 = bool!(j != 12), o13 = bool!(j == 13), o14 = bool!(j == 14), o15 = bool!(j != 15), o16 = bool!(j == 16), o17 = bool!(j == 17), o18 = bool!(j != 18), o19 = bool!(j == 19), o20 = bool!(j == 20), o21 = bool!(j != 21), o22 = bool!(j == 22), o23 = bool!(j == 23), o24 = bool!(j != 24), o25 = bool!(j == 25), o26 = bool!(j == 26), o27 = bool!(j != 27), o28 = bool!(j == 28), o29 = bool!(j == 29), o30 = bool!(j != 30), o31 = bool!(j == 31), o32 = bool!(j == 32), o33 = bool!(j != 33), o34 = bool!(j == 34), o35 = bool!(j == 35), o36 = bool!(j != 36), o37 = bool!(j == 37), o38 = bool!(j == 38), o39 = bool!(j != 39), o40 = bool!(j == 40), o41 = bool!(j == 41), o42 = bool!(j != 42), o43 = bool!(j == 43), o44 = bool!(j == 44), o45 = bool!(j != 45), o46 = bool!(j == 46), o47 = bool!(j == 47), o48 = bool!(j != 48), o49 = bool!(j == 49), o50 = bool!(j == 50), o51 = bool!(j != 51), o52 = bool!(j == 52), o53 = bool!(j == 53), o54 = bool!(j != 54), o55 = bool!(j == 55), o56 = bool!(j == 56), o57 = bool!(j != 57), o58 = bool!(j == 58), o59 = bool!(j == 59), o60 = bool!(j != 60), o61 = bool!(j == 61), o62 = bool!(j == 62))) }
    h_17_w063_1(b) { let j = each(u8_() as usize); assume(j <= 63); lit("<input"); if j == 0 { lit(" p0"); } if j == 1 { lit(" o1"); } if j != 2 { lit(" o2"); } if j == 3 { lit(" o3"); } if j == 4 { lit(" p4"); } lit(" z4=\"p4\""); if j != 5 { lit(" o5"); } if j == 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j != 8 { lit(" p8"); } if j == 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j != 11 { lit(" o11"); } if j == 12 { lit(" p12"); } if j == 13 { lit(" o13"); } lit(" z13=\"p13\""); if j != 14 { lit(" o14"); } if j == 15 { lit(" o15"); } if j == 16 { lit(" p16"); } lit(" w16"); if j != 17 { lit(" o17"); } if j == 18 { lit(" o18"); } if j == 19 { lit(" o19"); } if j != 20 { lit(" p20&lt;"); } if j == 21 { lit(" o21"); } if j == 22 { lit(" o22"); } lit(" z22=\"p22\""); if j != 23 { lit(" o23"); } if j == 24 { lit(" p24"); } if j == 25 { lit(" o25"); } if j != 26 { lit(" o26"); } if j == 27 { lit(" o27"); } if j == 28 { lit(" p28"); } if j != 29 { lit(" o29"); } if j == 30 { lit(" o30"); } if j == 31 { lit(" o31"); } lit(" z31=\"p31\""); if j != 32 { lit(" p32"); } if j == 33 { lit(" o33"); } if j == 34 { lit(" o34"); } if j != 35 { lit(" o35"); } if j == 36 { lit(" p36"); } if j == 37 { lit(" o37"); } if j != 38 { lit(" o38"); } lit(" w38"); if j == 39 { lit(" o39"); } if j == 40 { lit(" p40"); } lit(" z40=\"p40\""); if j != 41 { lit(" o41"); } if j == 42 { lit(" o42"); } if j == 43 { lit(" o43"); } if j != 44 { lit(" p44"); } if j == 45 { lit(" o45"); } if j == 46 { lit(" o46"); } if j != 47 { lit(" o47"); } if j == 48 { lit(" p48"); } if j == 49 { lit(" o49"); } lit(" z49=\"p49\""); if j != 50 { lit(" o50"); } if j == 51 { lit(" o51"); } if j == 52 { lit(" p52"); } if j != 53 { lit(" o53"); } if j == 54 { lit(" o54"); } if j == 55 { lit(" o55"); } if j != 56 { lit(" p56"); } if j == 57 { lit(" o57"); } if j == 58 { lit(" o58"); } lit(" z58=\"p58\""); if j != 59 { lit(" o59"); } if j == 60 { lit(" p60"); } lit(" w60"); if j == 61 { lit(" o61"); } if j != 62 { lit(" o62"); } lit(">"); end(b, input!(s(0) = bool!(j == 0), o1 = bool!(j == 1), o2 = bool!(j != 2), o3 = bool!(j == 3), s(4) = bool!(j == 4), z4 = s(4), o5 = bool!(j != 5), w5 = bool!(false), o6 = bool!(j == 6), o7 = bool!(j == 7), s(8) = bool!(j != 8), o9 = bool!(j == 9), o10 = bool!(j == 10), o11 = bool!(j != 11), s(12) = bool!(j == 12), o13 = bool!(j == 13), z13 = s(13), o14 = bool!(j != 14), o15 = bool!(j == 15), s(16) = bool!(j == 16), w16 = bool!(true), o17 = bool!(j != 17), o18 = bool!(j == 18), o19 = bool!(j == 19), s(20) = bool!(j != 20), o21 = bool!(j == 21), o22 = bool!(j == 22), z22 = s(22), o23 = bool!(j != 23), s(24) = bool!(j == 24), o25 = bool!(j == 25), o26 = bool!(j != 26), o27 = bool!(j == 27), w27 = bool!(false), s(28) = bool!(j == 28), o29 = bool!(j != 29), o30 = bool!(j == 30), o31 = bool!(j == 31), z31 = s(31), s(32) = bool!(j != 32), o33 = bool!(j == 33), o34 = bool!(j == 34), o35 = bool!(j != 35), s(36) = bool!(j == 36), o37 = bool!(j == 37), o38 = bool!(j != 38), w38 = bool!(true), o39 = bool!(j == 39), s(40) = bool!(j == 40), z40 = s(40), o41 = bool!(j != 41), o42 = bool!(j == 42), o43 = bool!(j == 43), s(44) = bool!(j != 44), o45 = bool!(j == 45), o46 = bool!(j == 46), o47 = bool!(j != 47), s(48) = bool!(j == 48), o49 = bool!(j == 49), z49 = s(49), w49 = bool!(false), o50 = bool!(j != 50), o51 = bool!(j == 51), s(52) = bool!(j == 52), o53 = bool!(j != 53), o54 = bool!(j == 54), o55 = bool!(j == 55), s(56) = bool!(j != 56), o57 = bool!(j == 57), o58 = bool!(j == 58), z58 = s(58), o59 = bool!(j != 59), s(60) = bool!(j == 60), w60 = bool!(true), o61 = bool!(j == 61), o62 = bool!(j != 62))) }
    h_17_w064_0(b) { let j = each(u8_() as usize); assume(j <= 64); lit("<input"); if j != 0 { lit(" o0"); } if j == 1 { lit(" o1"); } if j == 2 { lit(" o2"); } if j != 3 { lit(" o3"); } if j == 4 { lit(" o4"); } if j == 5 { lit(" o5"); } if j != 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j == 8 { lit(" o8"); } if j != 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j == 11 { lit(" o11"); } if j != 12 { lit(" o12"); } if j == 13 { lit(" o13"); } if j == 14 { lit(" o14"); } if j != 15 { lit(" o15"); } if j == 16 { lit(" o16"); } if j == 17 { lit(" o17"); } if j != 18 { lit(" o18"); } if j == 19 { lit(" o19"); } if j == 20 { lit(" o20"); } if j != 21 { lit(" o21"); } if j == 22 { lit(" o22"); } if j == 23 { lit(" o23"); } if j != 24 { lit(" o24"); } if j == 25 { lit(" o25"); } if j == 26 { lit(" o26"); } if j != 27 { lit(" o27"); } if j == 28 { lit(" o28"); } if j == 29 { lit(" o29"); } if j != 30 { lit(" o30"); } if j == 31 { lit(" o31"); } if j == 32 { lit(" o32"); } if j != 33 { lit(" o33"); } if j == 34 { lit(" o34"); } if j == 35 { lit(" o35"); } if j != 36 { lit(" o36"); } if j == 37 { lit(" o37"); } if j == 38 { lit(" o38"); } if j != 39 { lit(" o39"); } if j == 40 { lit(" o40"); } if j == 41 { lit(" o41"); } if j != 42 { lit(" o42"); } if j == 43 { lit(" o43"); } if j == 44 { lit(" o44"); } if j != 45 { lit(" o45"); } if j == 46 { lit(" o46"); } if j == 47 { lit(" o47"); } if j != 48 { lit(" o48"); } if j == 49 { lit(" o49"); } if j == 50 { lit(" o50"); } if j != 51 { lit(" o51"); } if j == 52 { lit(" o52"); } if j == 53 { lit(" o53"); } if j != 54 { lit(" o54"); } if j == 55 { lit(" o55"); } if j == 56 { lit(" o56"); } if j != 57 { lit(" o57"); } if j == 58 { lit(" o58"); } if j == 59 { lit(" o59"); } if j != 60 { lit(" o60"); } if j == 61 { lit(" o61"); } if j == 62 { lit(" o62"); } if j != 63 { lit(" o63"); } lit(">"); end(b, input!(o0 = bool!(j != 0), o1 = bool!(j == 1), o2 = bool!(j == 2), o3 = bool!(j != 3), o4 = bool!(j == 4), o5 = bool!(j == 5), o6 = bool!(j != 6), o7 = bool!(j == 7), o8 = bool!(j == 8), o9 = bool!(j != 9), o10 = bool!(j == 10), o11 = bool!(j == 11), o12 = bool!(j != 12), o13 = bool!(j == 13), o14 = bool!(j == 14), o15 = bool!(j != 15), o16 = bool!(j == 16), o17 = bool!(j == 17), o18 = bool!(j != 18), o19 = bool!(j == 19), o20 = bool!(j == 20), o21 = bool!(j != 21), o22 = bool!(j == 22), o23 = bool!(j == 23), o24 = bool!(j != 24), o25 = bool!(j == 25), o26 = bool!(j == 26), o27 = bool!(j != 27), o28 = bool!(j == 28), o29 = bool!(j == 29), o30 = bool!(j != 30), o31 = bool!(j == 31), o32 = bool!(j == 32), o33 = bool!(j != 33), o34 = bool!(j == 34), o35 = bool!(j == 35), o36 = bool!(j != 36), o37 = bool!(j == 37), o38 = bool!(j == 38), o39 = bool!(j != 39), o40 = bool!(j == 40), o41 = bool!(j == 41), o42 = bool!(j != 42), o43 = bool!(j == 43), o44 = bool!(j == 44), o45 = bool!(j != 45), o46 = bool!(j == 46), o47 = bool!(j == 47), o48 = bool!(j != 48), o49 = bool!(j == 49), o50 = bool!(j == 50), o51 = bool!(j != 51), o52 = bool!(j == 52), o53 = bool!(j == 53), o54 = bool!(j != 54), o55 = bool!(j == 55), o56 = bool!(j == 56), o57 = bool!(j != 57), o58 = bool!(j == 58), o59 = bool!(j == 59), o60 = bool!(j != 60), o61 = bool!(j == 61), o62 = bool!(j == 62), o63 = bool!(j != 63))) }
    h_17_w064_1(b) { let j = each(u8_() as usize); assume(j <= 64); lit("<input"); if j == 0 { lit(" p0"); } if j == 1 { lit(" o1"); } if j != 2 { lit(" o2"); } if j == 3 { lit(" o3"); } if j == 4 { lit(" p4"); } lit(" z4=\"p4\""); if j != 5 { lit(" o5"); } if j == 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j != 8 { lit(" p8"); } if j == 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j != 11 { lit(" o11"); } if j == 12 { lit(" p12"); } if j == 13 { lit(" o13"); } lit(" z13=\"p13\""); if j != 14 { lit(" o14"); } if j == 15 { lit(" o15"); } if j == 16 { lit(" p16"); } lit(" w16"); if j != 17 { lit(" o17"); } if j == 18 { lit(" o18"); } if j == 19 { lit(" o19"); } if j != 20 { lit(" p20&lt;"); } if j == 21 { lit(" o21"); } if j == 22 { lit(" o22"); } lit(" z22=\"p22\""); if j != 23 { lit(" o23"); } if j == 24 { lit(" p24"); } if j == 25 { lit(" o25"); } if j != 26 { lit(" o26"); } if j == 27 { lit(" o27"); } if j == 28 { lit(" p28"); } if j != 29 { lit(" o29"); } if j == 30 { lit(" o30"); } if j == 31 { lit(" o31"); } lit(" z31=\"p31\""); if j != 32 { lit(" p32"); } if j == 33 { lit(" o33"); } if j == 34 { lit(" o34"); } if j != 35 { lit(" o35"); } if j == 36 { lit(" p36"); } if j == 37 { lit(" o37"); } if j != 38 { lit(" o38"); } lit(" w38"); if j == 39 { lit(" o39"); } if j == 40 { lit(" p40"); } lit(" z40=\"p40\""); if j != 41 { lit(" o41"); } if j == 42 { lit(" o42"); } if j == 43 { lit(" o43"); } if j != 44 { lit(" p44"); } if j == 45 { lit(" o45"); } if j == 46 { lit(" o46"); } if j != 47 { lit(" o47"); } if j == 48 { lit(" p48"); } if j == 49 { lit(" o49"); } lit(" z49=\"p49\""); if j != 50 { lit(" o50"); } if j == 51 { lit(" o51"); } if j == 52 { lit(" p52"); } if j != 53 { lit(" o53"); } if j == 54 { lit(" o54"); } if j == 55 { lit(" o55"); } if j != 56 { lit(" p56"); } if j == 57 { lit(" o57"); } if j == 58 { lit(" o58"); } lit(" z58=\"p58\""); if j != 59 { lit(" o59"); } if j == 60 { lit(" p60"); } lit(" w60"); if j == 61 { lit(" o61"); } if j != 62 { lit(" o62"); } if j == 63 { lit(" o63"); } lit(">"); end(b, input!(s(0) = bool!(j == 0), o1 = bool!(j == 1), o2 = bool!(j != 2), o3 = bool!(j == 3), s(4) = bool!(j == 4), z4 = s(4), o5 = bool!(j != 5), w5 = bool!(false), o6 = bool!(j == 6), o7 = bool!(j == 7), s(8) = bool!(j != 8), o9 = bool!(j == 9), o10 = bool!(j == 10), o11 = bool!(j != 11), s(12) = bool!(j == 12), o13 = bool!(j == 13), z13 = s(13), o14 = bool!(j != 14), o15 = bool!(j == 15), s(16) = bool!(j == 16), w16 = bool!(true), o17 = bool!(j != 17), o18 = bool!(j == 18), o19 = bool!(j == 19), s(20) = bool!(j != 20), o21 = bool!(j == 21), o22 = bool!(j == 22), z22 = s(22), o23 = bool!(j != 23), s(24) = bool!(j == 24), o25 = bool!(j == 25), o26 = bool!(j != 26), o27 = bool!(j == 27), w27 = bool!(false), s(28) = bool!(j == 28), o29 = bool!(j != 29), o30 = bool!(j == 30), o31 = bool!(j == 31), z31 = s(31), s(32) = bool!(j != 32), o33 = bool!(j == 33), o34 = bool!(j == 34), o35 = bool!(j != 35), s(36) = bool!(j == 36), o37 = bool!(j == 37), o38 = bool!(j != 38), w38 = bool!(true), o39 = bool!(j == 39), s(40) = bool!(j == 40), z40 = s(40), o41 = bool!(j != 41), o42 = bool!(j == 42), o43 = bool!(j == 43), s(44) = bool!(j != 44), o45 = bool!(j == 45), o46 = bool!(j == 46), o47 = bool!(j != 47), s(48) = bool!(j == 48), o49 = bool!(j == 49), z49 = s(49), w49 = bool!(false), o50 = bool!(j != 50), o51 = bool!(j == 51), s(52) = bool!(j == 52), o53 = bool!(j != 53), o54 = bool!(j == 54), o55 = bool!(j == 55), s(56) = bool!(j != 56), o57 = bool!(j == 57), o58 = bool!(j == 58), z58 = s(58), o59 = bool!(j != 59), s(60) = bool!(j == 60), w60 = bool!(true), o61 = bool!(j == 61), o62 = bool!(j != 62), o63 = bool!(j == 63))) }
    h_17_w065_0(b) { let j = each(u8_() as usize); assume(j <= 65); lit("<input"); if j != 0 { lit(" o0"); } if j == 1 { lit(" o1"); } if j == 2 { lit(" o2"); } if j != 3 { lit(" o3"); } if j == 4 { lit(" o4"); } if j == 5 { lit(" o5"); } if j != 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j == 8 { lit(" o8"); } if j != 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j == 11 { lit(" o11"); } if j != 12 { lit(" o12"); } if j == 13 { lit(" o13"); } if j == 14 { lit(" o14"); } if j != 15 { lit(" o15"); } if j == 16 { lit(" o16"); } if j == 17 { lit(" o17"); } if j != 18 { lit(" o18"); } if j == 19 { lit(" o19"); } if j == 20 { lit(" o20"); } if j != 21 { lit(" o21"); } if j == 22 { lit(" o22"); } if j == 23 { lit(" o23"); } if j != 24 { lit(" o24"); } if j == 25 { lit(" o25"); } if j == 26 { lit(" o26"); } if j != 27 { lit(" o27"); } if j == 28 { lit(" o28"); } if j == 29 { lit(" o29"); } if j != 30 { lit(" o30"); } if j == 31 { lit(" o31"); } if j == 32 { lit(" o32"); } if j != 33 { lit(" o33"); } if j == 34 { lit(" o34"); } if j == 35 { lit(" o35"); } if j != 36 { lit(" o36"); } if j == 37 { lit(" o37"); } if j == 38 { lit(" o38"); } if j != 39 { lit(" o39"); } if j == 40 { lit(" o40"); } if j == 41 { lit(" o41"); } if j != 42 { lit(" o42"); } if j == 43 { lit(" o43"); } if j == 44 { lit(" o44"); } if j != 45 { lit(" o45"); } if j == 46 { lit(" o46"); } if j == 47 { lit(" o47"); } if j != 48 { lit(" o48"); } if j == 49 { lit(" o49"); } if j == 50 { lit(" o50"); } if j != 51 { lit(" o51"); } if j == 52 { lit(" o52"); } if j == 53 { lit(" o53"); } if j != 54 { lit(" o54"); } if j == 55 { lit(" o55"); } if j == 56 { lit(" o56"); } if j != 57 { lit(" o57"); } if j == 58 { lit(" o58"); } if j == 59 { lit(" o59"); } if j != 60 { lit(" o60"); } if j == 61 { lit(" o61"); } if j == 62 { lit(" o62"); } if j != 63 { lit(" o63"); } if j == 64 { lit(" o64"); } lit(">"); end(b, input!(o0 = bool!(j != 0), o1 = bool!(j == 1), o2 = bool!(j == 2), o3 = bool!(j != 3), o4 = bool!(j == 4), o5 = bool!(j == 5), o6 = bool!(j != 6), o7 = bool!(j == 7), o8 = bool!(j == 8), o9 = bool!(j != 9), o10 = bool!(j == 10), o11 = bool!(j == 11), o12 = bool!(j != 12), o13 = bool!(j == 13), o14 = bool!(j == 14), o15 = bool!(j != 15), o16 = bool!(j == 16), o17 = bool!(j == 17), o18 = bool!(j != 18), o19 = bool!(j == 19), o20 = bool!(j == 20), o21 = bool!(j != 21), o22 = bool!(j == 22), o23 = bool!(j == 23), o24 = bool!(j != 24), o25 = bool!(j == 25), o26 = bool!(j == 26), o27 = bool!(j != 27), o28 = bool!(j == 28), o29 = bool!(j == 29), o30 = bool!(j != 30), o31 = bool!(j == 31), o32 = bool!(j == 32), o33 = bool!(j != 33), o34 = bool!(j == 34), o35 = bool!(j == 35), o36 = bool!(j != 36), o37 = bool!(j == 37), o38 = bool!(j == 38), o39 = bool!(j != 39), o40 = bool!(j == 40), o41 = bool!(j == 41), o42 = bool!(j != 42), o43 = bool!(j == 43), o44 = bool!(j == 44), o45 = bool!(j != 45), o46 = bool!(j == 46), o47 = bool!(j == 47), o48 = bool!(j != 48), o49 = bool!(j == 49), o50 = bool!(j == 50), o51 = bool!(j != 51), o52 = bool!(j == 52), o53 = bool!(j == 53), o54 = bool!(j != 54), o55 = bool!(j == 55), o56 = bool!(j == 56), o57 = bool!(j != 57), o58 = bool!(j == 58), o59 = bool!(j == 59), o60 = bool!(j != 60), o61 = bool!(j == 61), o62 = bool!(j == 62), o63 = bool!(j != 63), o64 = bool!(j == 64))) }
    h_17_w065_1(b) { let j = each(u8_() as usize); assume(j <= 65); lit("<input"); if j == 0 { lit(" p0"); } if j == 1 { lit(" o1"); } if j != 2 { lit(" o2"); } if j == 3 { lit(" o3"); } if j == 4 { lit(" p4"); } lit(" z4=\"p4\""); if j != 5 { lit(" o5"); } if j == 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j != 8 { lit(" p8"); } if j == 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j != 11 { lit(" o11"); } if j == 12 { lit(" p12"); } if j == 13 { lit(" o13"); } lit(" z13=\"p13\""); if j != 14 { lit(" o14"); } if j == 15 { lit(" o15"); } if j == 16 { lit(" p16"); } lit(" w16"); if j != 17 { lit(" o17"); } if j == 18 { lit(" o18"); } if j == 19 { lit(" o19"); } if j != 20 { lit(" p20&lt;"); } if j == 21 { lit(" o21"); } if j == 22 { lit(" o22"); } lit(" z22=\"p22\""); if j != 23 { lit(" o23"); } if j == 24 { lit(" p24"); } if j == 25 { lit(" o25"); } if j != 26 { lit(" o26"); } if j == 27 { lit(" o27"); } if j == 28 { lit(" p28"); } if j != 29 { lit(" o29"); } if j == 30 { lit(" o30"); } if j == 31 { lit(" o31"); } lit(" z31=\"p31\""); if j != 32 { lit(" p32"); } if j == 33 { lit(" o33"); } if j == 34 { lit(" o34"); } if j != 35 { lit(" o35"); } if j == 36 { lit(" p36"); } if j == 37 { lit(" o37"); } if j != 38 { lit(" o38"); } lit(" w38"); if j == 39 { lit(" o39"); } if j == 40 { lit(" p40"); } lit(" z40=\"p40\""); if j != 41 { lit(" o41"); } if j == 42 { lit(" o42"); } if j == 43 { lit(" o43"); } if j != 44 { lit(" p44"); } if j == 45 { lit(" o45"); } if j == 46 { lit(" o46"); } if j != 47 { lit(" o47"); } if j == 48 { lit(" p48"); } if j == 49 { lit(" o49"); } lit(" z49=\"p49\""); if j != 50 { lit(" o50"); } if j == 51 { lit(" o51"); } if j == 52 { lit(" p52"); } if j != 53 { lit(" o53"); } if j == 54 { lit(" o54"); } if j == 55 { lit(" o55"); } if j != 56 { lit(" p56"); } if j == 57 { lit(" o57"); } if j == 58 { lit(" o58"); } lit(" z58=\"p58\""); if j != 59 { lit(" o59"); } if j == 60 { lit(" p60"); } lit(" w60"); if j == 61 { lit(" o61"); } if j != 62 { lit(" o62"); } if j == 63 { lit(" o63"); } if j == 64 { lit(" p64"); } lit(">"); end(b, input!(s(0) = bool!(j == 0), o1 = bool!(j == 1), o2 = bool!(j != 2), o3 = bool!(j == 3), s(4) = bool!(j == 4), z4 = s(4), o5 = bool!(j != 5), w5 = bool!(false), o6 = bool!(j == 6), o7 = bool!(j == 7), s(8) = bool!(j != 8), o9 = bool!(j == 9), o10 = bool!(j == 10), o11 = bool!(j != 11), s(12) = bool!(j == 12), o13 = bool!(j == 13), z13 = s(13), o14 = bool!(j != 14), o15 = bool!(j == 15), s(16) = bool!(j == 16), w16 = bool!(true), o17 = bool!(j != 17), o18 = bool!(j == 18), o19 = bool!(j == 19), s(20) = bool!(j != 20), o21 = bool!(j == 21), o22 = bool!(j == 22), z22 = s(22), o23 = bool!(j != 23), s(24) = bool!(j == 24), o25 = bool!(j == 25), o26 = bool!(j != 26), o27 = bool!(j == 27), w27 = bool!(false), s(28) = bool!(j == 28), o29 = bool!(j != 29), o30 = bool!(j == 30), o31 = bool!(j == 31), z31 = s(31), s(32) = bool!(j != 32), o33 = bool!(j == 33), o34 = bool!(j == 34), o35 = bool!(j != 35), s(36) = bool!(j == 36), o37 = bool!(j == 37), o38 = bool!(j != 38), w38 = bool!(true), o39 = bool!(j == 39), s(40) = bool!(j == 40), z40 = s(40), o41 = bool!(j != 41), o42 = bool!(j == 42), o43 = bool!(j == 43), s(44) = bool!(j != 44), o45 = bool!(j == 45), o46 = bool!(j == 46), o47 = bool!(j != 47), s(48) = bool!(j == 48), o49 = bool!(j == 49), z49 = s(49), w49 = bool!(false), o50 = bool!(j != 50), o51 = bool!(j == 51), s(52) = bool!(j == 52), o53 = bool!(j != 53), o54 = bool!(j == 54), o55 = bool!(j == 55), s(56) = bool!(j != 56), o57 = bool!(j == 57), o58 = bool!(j == 58), z58 = s(58), o59 = bool!(j != 59), s(60) = bool!(j == 60), w60 = bool!(true), o61 = bool!(j == 61), o62 = bool!(j != 62), o63 = bool!(j == 63), s(64) = bool!(j == 64))) }
    h_17_w070_0(b) { let j = each(u8_() as usize); assume(j <= 70); lit("<input"); if j != 0 { lit(" o0"); } if j == 1 { lit(" o1"); } if j == 2 { lit(" o2"); } if j != 3 { lit(" o3"); } if j == 4 { lit(" o4"); } if j == 5 { lit(" o5"); } if j != 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j == 8 { lit(" o8"); } if j != 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j == 11 { lit(" o11"); } if j != 12 { lit(" o12"); } if j == 13 { lit(" o13"); } if j == 14 { lit(" o14"); } if j != 15 { lit(" o15"); } if j == 16 { lit(" o16"); } if j == 17 { lit(" o17"); } if j != 18 { lit(" o18"); } if j == 19 { lit(" o19"); } if j == 20 { lit(" o20"); } if j != 21 { lit(" o21"); } if j == 22 { lit(" o22"); } if j == 23 { lit(" o23"); } if j != 24 { lit(" o24"); } if j == 25 { lit(" o25"); } if j == 26 { lit(" o26"); } if j != 27 { lit(" o27"); } if j == 28 { lit(" o28"); } if j == 29 { lit(" o29"); } if j != 30 { lit(" o30"); } if j == 31 { lit(" o31"); } if j == 32 { lit(" o32"); } if j != 33 { lit(" o33"); } if j == 34 { lit(" o34"); } if j == 35 { lit(" o35"); } if j != 36 { lit(" o36"); } if j == 37 { lit(" o37"); } if j == 38 { lit(" o38"); } if j != 39 { lit(" o39"); } if j == 40 { lit(" o40"); } if j == 41 { lit(" o41"); } if j != 42 { lit(" o42"); } if j == 43 { lit(" o43"); } if j == 44 { lit(" o44"); } if j != 45 { lit(" o45"); } if j == 46 { lit(" o46"); } if j == 47 { lit(" o47"); } if j != 48 { lit(" o48"); } if j == 49 { lit(" o49"); } if j == 50 { lit(" o50"); } if j != 51 { lit(" o51"); } if j == 52 { lit(" o52"); } if j == 53 { lit(" o53"); } if j != 54 { lit(" o54"); } if j == 55 { lit(" o55"); } if j == 56 { lit(" o56"); } if j != 57 { lit(" o57"); } if j == 58 { lit(" o58"); } if j == 59 { lit(" o59"); } if j != 60 { lit(" o60"); } if j == 61 { lit(" o61"); } if j == 62 { lit(" o62"); } if j != 63 { lit(" o63"); } if j == 64 { lit(" o64"); } if j == 65 { lit(" o65"); } if j != 66 { lit(" o66"); } if j == 67 { lit(" o67"); } if j == 68 { lit(" o68"); } if j != 69 { lit(" o69"); } lit(">"); end(b, input!(o0 = bool!(j != 0), o1 = bool!(j == 1), o2 = bool!(j == 2), o3 = bool!(j != 3), o4 = bool!(j == 4), o5 = bool!(j == 5), o6 = bool!(j != 6), o7 = bool!(j == 7), o8 = bool!(j == 8), o9 = bool!(j != 9), o10 = bool!(j == 10), o11 = bool!(j == 11), o12 = bool!(j != 12), o13 = bool!(j == 13), o14 = bool!(j == 14), o15 = bool!(j != 15), o16 = bool!(j == 16), o17 = bool!(j == 17), o18 = bool!(j != 18), o19 = bool!(j == 19), o20 = bool!(j == 20), o21 = bool!(j != 21), o22 = bool!(j == 22), o23 = bool!(j == 23), o24 = bool!(j != 24), o25 = bool!(j == 25), o26 = bool!(j == 26), o27 = bool!(j != 27), o28 = bool!(j == 28), o29 = bool!(j == 29), o30 = bool!(j != 30), o31 = bool!(j == 31), o32 = bool!(j == 32), o33 = bool!(j != 33), o34 = bool!(j == 34), o35 = bool!(j == 35), o36 = bool!(j != 36), o37 = bool!(j == 37), o38 = bool!(j == 38), o39 = bool!(j != 39), o40 = bool!(j == 40), o41 = bool!(j == 41), o42 = bool!(j != 42), o43 = bool!(j == 43), o44 = bool!(j == 44), o45 = bool!(j != 45), o46 = bool!(j == 46), o47 = bool!(j == 47), o48 = bool!(j != 48), o49 = bool!(j == 49), o50 = bool!(j == 50), o51 = bool!(j != 51), o52 = bool!(j == 52), o53 = bool!(j == 53), o54 = bool!(j != 54), o55 = bool!(j == 55), o56 = bool!(j == 56), o57 = bool!(j != 57), o58 = bool!(j == 58), o59 = bool!(j == 59), o60 = bool!(j != 60), o61 = bool!(j == 61), o62 = bool!(j == 62), o63 = bool!(j != 63), o64 = bool!(j == 64), o65 = bool!(j == 65), o66 = bool!(j != 66), o67 = bool!(j == 67), o68 = bool!(j == 68), o69 = bool!(j != 69))) }
    h_17_w070_1(b) { let j = each(u8_() as usize); assume(j <= 70); lit("<input"); if j == 0 { lit(" p0"); } if j == 1 { lit(" o1"); } if j != 2 { lit(" o2"); } if j == 3 { lit(" o3"); } if j == 4 { lit(" p4"); } lit(" z4=\"p4\""); if j != 5 { lit(" o5"); } if j == 6 { lit(" o6"); } if j == 7 { lit(" o7"); } if j != 8 { lit(" p8"); } if j == 9 { lit(" o9"); } if j == 10 { lit(" o10"); } if j != 11 { lit(" o11"); } if j == 12 { lit(" p12"); } if j == 13 { lit(" o13"); } lit(" z13=\"p13\""); if j != 14 { lit(" o14"); } if j == 15 { lit(" o15"); } if j == 16 { lit(" p16"); } lit(" w16"); if j != 17 { lit(" o17"); } if j == 18 { lit(" o18"); } if j == 19 { lit(" o19"); } if j != 20 { lit(" p20&lt;"); } if j == 21 { lit(" o21"); } if j == 22 { lit(" o22"); } lit(" z22=\"p22\""); if j != 23 { lit(" o23"); } if j == 24 { lit(" p24"); } if j == 25 { lit(" o25"); } if j != 26 { lit(" o26"); } if j == 27 { lit(" o27"); } if j == 28 { lit(" p28"); } if j != 29 { lit(" o29"); } if j == 30 { lit(" o30"); } if j == 31 { lit(" o31"); } lit(" z31=\"p31\""); if j != 32 { lit(" p32"); } if j == 33 { lit(" o33"); } if j == 34 { lit(" o34"); } if j != 35 { lit(" o35"); } if j == 36 { lit(" p36"); } if j == 37 { lit(" o37"); } if j != 38 { lit(" o38"); } lit(" w38"); if j == 39 { lit(" o39"); } if j == 40 { lit(" p40"); } lit(" z40=\"p40\""); if j != 41 { lit(" o41"); } if j == 42 { lit(" o42"); } if j == 43 { lit(" o43"); } if j != 44 { lit(" p44"); } if j == 45 { lit(" o45"); } if j == 46 { lit(" o46"); } if j != 47 { lit(" o47"); } if j == 48 { lit(" p48"); } if j == 49 { lit(" o49"); } lit(" z49=\"p49\""); if j != 50 { lit(" o50"); } if j == 51 { lit(" o51"); } if j == 52 { lit(" p52"); } if j != 53 { lit(" o53"); } if j == 54 { lit(" o54"); } if j == 55 { lit(" o55"); } if j != 56 { lit(" p56"); } if j == 57 { lit(" o57"); } if j == 58 { lit(" o58"); } lit(" z58=\"p58\""); if j != 59 { lit(" o59"); } if j == 60 { lit(" p60"); } lit(" w60"); if j == 61 { lit(" o61"); } if j != 62 { lit(" o62"); } if j == 63 { lit(" o63"); } if j == 64 { lit(" p64"); } if j != 65 { lit(" o65"); } if j == 66 { lit(" o66"); } if j == 67 { lit(" o67"); } lit(" z67=\"p67\""); if j != 68 { lit(" p68"); } if j == 69 { lit(" o69"); } lit(">"); end(b, input!(s(0) = bool!(j == 0), o1 = bool!(j == 1), o2 = bool!(j != 2), o3 = bool!(j == 3), s(4) = bool!(j == 4), z4 = s(4), o5 = bool!(j != 5), w5 = bool!(false), o6 = bool!(j == 6), o7 = bool!(j == 7), s(8) = bool!(j != 8), o9 = bool!(j == 9), o10 = bool!(j == 10), o11 = bool!(j != 11), s(12) = bool!(j == 12), o13 = bool!(j == 13), z13 = s(13), o14 = bool!(j != 14), o15 = bool!(j == 15), s(16) = bool!(j == 16), w16 = bool!(true), o17 = bool!(j != 17), o18 = bool!(j == 18), o19 = bool!(j == 19), s(20) = bool!(j != 20), o21 = bool!(j == 21), o22 = bool!(j == 22), z22 = s(22), o23 = bool!(j != 23), s(24) = bool!(j == 24), o25 = bool!(j == 25), o26 = bool!(j != 26), o27 = bool!(j == 27), w27 = bool!(false), s(28) = bool!(j == 28), o29 = bool!(j != 29), o30 = bool!(j == 30), o31 = bool!(j == 31), z31 = s(31), s(32) = bool!(j != 32), o33 = bool!(j == 33), o34 = bool!(j == 34), o35 = bool!(j != 35), s(36) = bool!(j == 36), o37 = bool!(j == 37), o38 = bool!(j != 38), w38 = bool!(true), o39 = bool!(j == 39), s(40) = bool!(j == 40), z40 = s(40), o41 = bool!(j != 41), o42 = bool!(j == 42), o43 = bool!(j == 43), s(44) = bool!(j != 44), o45 = bool!(j == 45), o46 = bool!(j == 46), o47 = bool!(j != 47), s(48) = bool!(j == 48), o49 = bool!(j == 49), z49 = s(49), w49 = bool!(false), o50 = bool!(j != 50), o51 = bool!(j == 51), s(52) = bool!(j == 52), o53 = bool!(j != 53), o54 = bool!(j == 54), o55 = bool!(j == 55), s(56) = bool!(j != 56), o57 = bool!(j == 57), o58 = bool!(j == 58), z58 = s(58), o59 = bool!(j != 59), s(60) = bool!(j == 60), w60 = bool!(true), o61 = bool!(j == 61), o62 = bool!(j != 62), o63 = bool!(j == 63), s(64) = bool!(j == 64), o65 = bool!(j != 65), o66 = bool!(j == 66), o67 = bool!(j == 67), z67 = s(67), s(68) = bool!(j != 68), o69 = bool!(j == 69))) }
}
