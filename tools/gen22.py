#!/usr/bin/env python3
"""Writes harness/src/c22.rs: literals in every form, with the text each must give, written down here."""
import os
def esc(s): return ''.join({'"': '&quot;', '&': '&amp;', "'": '&#39;', '<': '&lt;', '>': '&gt;'}.get(c, c) for c in s)
def rs(s): return '"' + ''.join({'"': '\\"', '\\': '\\\\'}.get(c) or (c if ' ' <= c <= '~' or c.isalpha() else '\\u{%x}' % ord(c)) for c in s) + '"'
L = []   # (tokens, text, can be held in a variable)
def l(tok, text, var=True): L.append((tok, text, var))
# strings: tokens, expected (escaped by hand)
l('""', ''); l('"a"', 'a'); l('"<>&\\"\'"', '&lt;&gt;&amp;&quot;&#39;'); l('"a\\nb\\tc\\\\"', 'a\nb\tc\\'); l('"\\u{1f600}é"', '\U0001f600é'); l('r"raw\\n<"', 'raw\\n&lt;'); l('r#"a"b"#', 'a&quot;b')
l('"con\\\n      tinued"', 'continued'); l('"\\0\\x7f"', '\0\x7f'); l('"&amp;"', '&amp;amp;'); l('"0123456789abcdef0123456789abcdef01<23456789"', '0123456789abcdef0123456789abcdef01&lt;23456789'); l('"\'"', '&#39;'); l('" "', ' '); l('"two\nlines"', 'two\nlines'); l('"{}{{}}"', '{}{{}}')
# control characters, line ends, spaces of every kind, characters that other systems treat as equal
ODD = ['\r\n', '\r', 'a\r\nb\rc\nd', '\n\r', '\n\n', '\v\f', '\u2028', '\u2029x', '\u0085', '\u00a0', '\u200b', '\ufeff', 'x\ufeffy', '\u200d', '\u202e', '\ufffd', '\ufffe', '\U0010fffe', '\u0300', 'e\u0301', '\u212b', 'ﬁ', 'ẞß', 'İı', '  a  b  ', '\t\t', ' \n ', '\x1b[0m', '\x01\x02\x1f', '\ue000', '\u2060', '%20%s', '${x}', '#{x}', '\\n', '\\', '\\\\u{41}', '`', '&nbsp;', '&#39;', '&&', '<!---->', '</script>', '<?', ']]>', '<![CDATA[', '""', "''", '<>', '><', '&lt', '&lt;b&gt;', '=', '"=\'', '１２', '\U0001f468\u200d\U0001f469', 'UPPER', 'NaN', 'true ', '+1', '0x10', '1_000', '007', '1.50', '-0', '1e5']
for w in ODD: l(rs(w), esc(w))
for w in ODD:
    if len(w) == 1: l("'%s'" % rs(w)[1:-1], esc(w))
for c in ('a', 'Z', '0', ' ', 'é', '😀', '世'): l("'%s'" % c, c)
l("'<'", '&lt;'); l("'>'", '&gt;'); l("'&'", '&amp;'); l("'\"'", '&quot;'); l("'\\''", '&#39;'); l("'\\n'", '\n'); l("'\\0'", '\0'); l("'\\u{10ffff}'", '\U0010ffff'); l("'\\x7f'", '\x7f'); l("'\\\\'", '\\')
l("b'a'", '97'); l("b'\\xff'", '255'); l("b'\\n'", '10'); l("b'<'", '60'); l("b'\\''", '39'); l("b'\\0'", '0'); l("b'9'", '57')
l('true', 'true'); l('false', 'false')
for n in (0, 1, 9, 10, 99, 100, 999, 1000, 12345, 2147483647): l(str(n), str(n))
l('4294967296', '4294967296', False); l('340282366920938463463374607431768211455', '340282366920938463463374607431768211455', False); l('18446744073709551616', '18446744073709551616', False)
l('0xff', '255'); l('0o17', '15'); l('0b1010', '10'); l('1_000_000', '1000000'); l('0xDEAD_BEEFu32', str(0xdeadbeef)); l('00012', '12'); l('0b1111_0000u8', '240'); l('0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff', str(2 ** 128 - 1), False)
for b in (8, 16, 32, 64, 128): l('%du%d' % (2 ** b - 1, b), str(2 ** b - 1)); l('%di%d' % (2 ** (b - 1) - 1, b), str(2 ** (b - 1) - 1)); l('-%di%d' % (2 ** (b - 1), b), str(-2 ** (b - 1))); l('0u%d' % b, '0'); l('7_i%d' % b, '7')
l('1usize', '1'); l('5isize', '5'); l('18446744073709551615usize', '18446744073709551615'); l('-1', '-1'); l('-0', '0'); l('0x1Fi64', '31'); l('0o7_7u16', '63')
for t, w in (('0.0', '0.0'), ('1.0', '1.0'), ('1.5', '1.5'), ('0.1', '0.1'), ('1e10', '10000000000.0'), ('1e15', '1000000000000000.0'), ('1e16', '1e16'), ('1e-7', '1e-7'), ('0.0001', '0.0001'), ('0.00001', '0.00001'), ('3.141592653589793', '3.141592653589793'), ('1.7976931348623157e308', '1.7976931348623157e308'), ('5e-324', '5e-324'), ('2.5f32', '2.5'), ('0.1f32', '0.1'), ('16777217.0f32', '16777216.0'), ('1f32', '1.0'), ('1f64', '1.0'), ('1.', '1.0'), ('1e3f32', '1000.0'), ('1_0.5', '10.5'), ('1E5', '100000.0'), ('123456789.125f64', '123456789.125'), ('3.4028235e38f32', '3.4028235e38'), ('-1.5', '-1.5'), ('-0.0', '-0.0'), ('0.3f64', '0.3'), ('0.30000001f32', '0.3'), ('7_f64', '7.0'), ('1e2', '100.0'), ('2e0f64', '2.0'), ('9007199254740993.0', '9007199254740992.0'), ('8388609f32', '8388609.0'), ('1e13f32', '1e13'), ('1e-5f32', '0.00001')): l(t, w)
F = ['lit(w); end(b, frag!(@))', 'w!["<p>", (w), "</p>"]; end(b, p!(@))', 'w!["<p>", [x], (w), [x], "</p>"]; end(b, p!(x, @, x))', 'w!["<p>a", (w), "b", (w), "</p>"]; end(b, p!("a", @, "b", @))',
     'w!["<p a=\\"", (w), "\\" b=\\"", [x], "\\"></p>"]; end(b, p!(a = @, b = x))', 'w!["<p>", (w), (w), "</p>"]; end(b, p!((@), ((@))))', 'w!["<p a=\\"", (w), "\\">", (w), (w), "</p>"]; end(b, p!({ @ }, ({ (@) }), a = { @ }))',
     'w![(w), " ", [x], " ", (w)]; end(b, classes!(@, x, @))', 'w!["<p><b>", (w), "</b>", [x], "</p>"]; end(b, p!(b!(@), x))', 'w!["<p ", (w), "=\\"", [x], "\\"></p>"]; end(b, p!(@ = x))',
     'w!["<p"]; if k { lit(" "); lit(w) } w![" ", (w), "></p>"]; end(b, p!(@ = bool!(k), (@) = bool!(true)))', 'w!["<p>", (w), "</p>"]; end(b, via!(@))', 'w!["<p>", (w), [x], "</p>"]; end(b, p!({ let z = 0; @ }, x))',
     'lit(w); end(b, @)', 'let v = @; w!["<p>", (w), "</p>"]; end(b, p!(v))', 'let v = @; let c = b!(v); let v = @; w!["<p ", (w), "=\\"", (w), "\\"><b>", (w), "</b></p>"]; end(b, p!({ v } = v, c))', 'lit(w); end(b, Some(@))',
     'w!["<p></p>"]; end(b, p!({ @; }))', 'w!["<p a=\\"\\">", [x], (w), "</p>"]; end(b, p!(a = { @; }, { { @; } }, { @; x }, { @; @ }))', 'w!["<p>", (w), (w), (w), "</p>"]; end(b, p!(unsafe { @ }, loop { break @ }, \'q: { break \'q @ }))',
     'w!["<p>"]; if k { lit(w) } else { lit(w); } w![(w), (w), "</p>"]; end(b, p!(if k { @ } else { @ }, match k { _ => @ }, (|| @)()))', 'w!["<p a=\\"", (w), "\\">", (w), "</p>"]; end(b, p!(a = Some(@), [@][0]))', 'w![(w), ", ", (w)]; end(b, iter!(", ", [@, @]))',
     'w!["<p>", (w), "</p>", (w)]; end(b, frag!(frag_match!(if k { p!(@) } else { frag!("<p>".len() - 3, raw!("")) }), @)); if !k { spec_reset() }'.replace('; if !k { spec_reset() }', '').replace('frag_match!(if k { p!(@) } else { frag!("<p>".len() - 3, raw!("")) })', 'frag_match!(if k { p!(@) } else { frag!(p!({ @ })) })')]
NVX = (11, 12, 13, 14, 15, 16, 18, 19, 20, 21, 22)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../harness/src/c22.rs'), 'w') as f:
    f.write('//! literals (written by tools/gen22.py)\nuse crate::pre::*;\nuse laby::*;\n')
    f.write('macro_rules! via { ($e:expr) => { p!($e) } }\n#[allow(overflowing_literals)]\nmod all { use crate::pre::*; use laby::*; case! {\n')
    for i, (t, w, v) in enumerate(L):
        fs = F if v else [g for k, g in enumerate(F) if k not in NVX]
        f.write('    h_22_l%03d(b) { let w = %s; let x = t(1); let k = bool_(); match choose(%d) {\n' % (i, rs(w), len(fs)))
        for k, g in enumerate(fs): f.write('        %s => { %s }\n' % (k if k < len(fs) - 1 else '_', g.replace('@', t)))
        f.write('    } }\n')
    f.write('} }\n')
print(len(L), 'literals')
