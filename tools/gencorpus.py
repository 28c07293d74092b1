#!/usr/bin/env python3
"""Writes harness/src/gNN.rs: template programs drawn from a grammar of everything the macros accept, each with the text it must
give, worked out here. Fixed seeds: running it again writes the same files."""
import os, random, re, sys

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '../harness/src')
NORMAL = 'a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul var video'.split()
VOID = 'area base br col embed hr img input link meta param source track wbr'.split()
def rs(s): return '"' + ''.join({'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r', '\0': '\\0'}.get(c) or (c if ' ' <= c <= '~' or c.isalpha() else '\\u{%x}' % ord(c)) for c in s) + '"'
def esc(s): return ''.join({'"': '&quot;', '&': '&amp;', "'": '&#39;', '<': '&lt;', '>': '&gt;'}.get(c, c) for c in s)
# an expected text is a list of statements; L is fixed text
def L(s): return ['lit(%s);' % rs(s)] if s else []
def join(ops):
    """adjacent fixed text in one call"""
    o = []; acc = None
    for s in ops:
        if s.startswith('lit("') and s.endswith('");'):
            acc = s[5:-3] if acc is None else acc + s[5:-3]
            continue
        if acc is not None: o.append('lit("%s");' % acc); acc = None
        o.append(s)
    if acc is not None: o.append('lit("%s");' % acc)
    return ' '.join(o)

STRINGS = ['', 'a', 'abc', '<', '>', '&', '"', "'", 'a<b', '&amp;', ' ', '  ', 'x y', 'tab\t', 'nl\n', 'é', '世界', '😀', '=', '/>', '</p>', '<!--', '0', '-', '{}', '{{}}', '%', '#', '\\', "it's", 'say "hi"', 'r#"', '\0', '\x7f', ';', 'data-x',
    '0123456789abcdef', '0123456789abcdef<', 'a&b<c>d"e\'f', '0123456789012345678901234567890123456789', '<<<<<<<<<<<<<<<<', '\r\n', '\r', 'a\r\nb', '\ufeff', '\u2028', '\u200b', '\xa0', 'e\u0301', '\x1b', '\x01', '\v', '  two  ', 'UP', '1.50', '007', '&#39;', '``', '\U0001f468\u200d\U0001f469', '\uffff', 'long text that goes on and on & on, past thirty two bytes <i>']
LITS = [(rs(s), esc(s)) for s in STRINGS] + [("'<'", '&lt;'), ("'c'", 'c'), ("'\\''", '&#39;'), ("'é'", 'é'), ('true', 'true'), ('false', 'false'), ('0', '0'), ('7', '7'), ('1_000', '1000'), ('0xff', '255'), ('9u8', '9'), ('12i64', '12'),
    ('1.5', '1.5'), ('2.0', '2.0'), ("b'a'", '97'), ('3f32', '3.0'), ('1e3', '1000.0'), ('r"raw\\<"', 'raw\\&lt;'), ('r#"q"q"#', 'q&quot;q')]
NUMS = [('1 + 2', '3'), ('-5', '-5'), ('-1.5', '-1.5'), ('!0u8', '255'), ('7u32 << 2', '28'), ('10 % 4', '2'), ('300i32 as u8', '44'), ('-0', '0'), ('u8::MAX', '255'), ('i128::MIN', '-170141183460469231731687303715884105728'), ('[1, 2, 3].len()', '3'), ('(1, 2).1', '2'), ('3i8.pow(2)', '9'), ('1 < 2', 'true'), ('!true', 'false'), ("'a' as u32", '97'), ('2 == 3 || 4 == 4', 'true'), ('K7', '7'), ('mk::SEV', '7')]

class Gen:
    def __init__(s, seed, ints='', names=None):
        s.r = random.Random(seed); s.n = 0
        s.x, s.y, s.v, s.k, s.l = names or ('x', 'y', 'v', 'k', 'l')
        s.used = set()
        s.hoist = None      # list of let statements, when building the variant through variables
        s.hp = 0.0
        s.inline = True     # temporaries allowed (format_args)
        s.stems = 'hzwu'
    def pick(s, l): return s.r.choice(l)
    def ch(s, p): return s.r.random() < p
    def use(s, n): s.used.add(n); return n
    def fresh(s): s.n += 1; return 'h%d' % s.n
    # ---- expressions whose value is the text x or y: (tokens, statements)
    def var(s):
        q = s.pick((s.x, s.x, s.y)); s.use(q); return q
    def text(s, deep=2, strict=False):
        """strict: the value is a &'static str"""
        a = s.var(); e = ['esc(%s);' % a]
        def o():
            t, ee = s.text(deep - 1, strict or f in (13, 14, 15, 20, 27, 31, 32)) if deep > 0 and s.ch(.3) else (a, e)
            return t, ee
        f = s.r.randrange(34)
        if strict and f in (23, 26, 31): f = 10
        t, e = o()
        if f <= 7: return a, ['esc(%s);' % a]
        if f == 8: return '{ %s }' % t, e
        if f == 9: return '({ let q = %s; q })' % t, e
        if f == 10: return 'idf(%s)' % t, e
        if f == 11: return 'S0.m(%s)' % t, e
        if f == 12: return '(%s)' % t, e
        if f == 13:
            k = s.cond(); b = s.var(); return 'if %s { %s } else { %s }' % (k[0], t, b), ['if %s { %s } else { esc(%s); }' % (k[1], join(e), b)]
        if f == 14:
            k = s.use(s.k); b = s.var(); return 'match %s { true => %s, false => %s }' % (k, t, b), ['if %s { %s } else { esc(%s); }' % (k, join(e), b)]
        if f == 15: return '[%s, "other"][0]' % t, e
        if f == 16: return '("other", %s).1' % t, e
        if f == 17: return 'P0 { a: "other", b: %s }.b' % t, e
        if f == 18: return '*&%s' % a, ['esc(%s);' % a]
        if f == 19: return '(|| %s)()' % t, e
        if f == 20: return '(move |q: &\'static str| q)(%s)' % t, e
        if f == 21: return 'loop { break (%s) }' % t, e
        if f == 22: return 'unsafe { idu(%s) }' % t, e
        if f == 23: return 'Some(%s)' % t, e
        if f == 24: return 'Some(%s).unwrap()' % t, e
        if f == 25: return 'idm!(%s)' % t, e
        if f == 26: return 'W0(%s)' % t, e
        if f == 27: return 'core::convert::identity::<&str>(%s)' % t, e
        if f == 28: return '%s as &str' % a, ['esc(%s);' % a]
        if f == 29: return '\'q: { break \'q %s }' % t, e
        if f == 30: return '&%s[..]' % a, ['esc(%s);' % a]
        if f == 31: return 'String::from(%s)' % t, e
        if f == 32: return 'if let Some(q) = Some(%s) { q } else { "no" }' % t, e
        return '{ let q = idf; q(%s) }' % t, e
    def cond(s):
        k = s.use(s.k); l = s.use(s.l) if s.ch(.4) else k
        v = None
        o = [(k, k), (k, k), ('!' + k, '!' + k), ('%s && %s' % (k, l), '%s && %s' % (k, l)), ('%s || %s' % (k, l), '%s || %s' % (k, l)), ('idb(%s)' % k, k), ('{ %s }' % k, k), ('(%s)' % k, k), ('!!%s' % k, k), ('%s ^ true' % k, '!' + k), ('S0.m(%s)' % k, k), ('(|| %s)()' % k, k)]
        if s.ch(.3):
            v = s.use(s.v); o += [('%s > 99' % v, '%s > 99' % v), ('matches!(%s, 0..=9)' % v, '%s < 10' % v), ('%s == 7 || %s' % (v, k), '%s == 7 || %s' % (v, k))]
        return s.pick(o)
    def lit(s):
        t, w = s.pick(LITS)
        f = s.r.randrange(14)
        if f == 0: t = '(%s)' % t
        elif f == 1: t = '{ %s }' % t
        elif f == 2: t = '({ (%s) })' % t
        elif f == 3 and t[0] in '"r': t = 'idf(%s)' % t
        elif f == 4: t = 'if true { %s } else { %s }' % (t, t)
        elif f == 5: t = 'loop { break %s }' % t
        elif f == 6 and t[0] == '"': t = 'const0!(%s)' % t
        elif f == 7 and t[0] == '"': t = 'concat!(%s, "")' % t
        elif f == 8: return '{ %s; }' % t, []
        elif f == 9: t = 'match 0 { _ => %s }' % t
        return t, L(w)
    def leaf(s):
        f = s.r.randrange(22)
        if f < 8: return s.text()
        if f < 13: return s.lit()
        if f == 13: v = s.use(s.v); return s.pick((v, '{ %s }' % v, 'S0.m(%s)' % v, '%s as u32' % v)), ['lit_dec(%s as u32);' % v]
        if f == 14: k, e = s.cond(); return ('(%s)' % k if '{' in k or ' ' in k else k), ['lit(if %s { "true" } else { "false" });' % e]
        if f == 15: t, w = s.pick(NUMS); return t, L(w)
        if f == 16: return s.pick((('()', []), ('{}', []), ('None::<&str>', []), ('{ (); }', []), ('{ let _ = 1; }', []), ('{ 5; 6 }', L('6')), ('Some(())', []), ('""', [])))
        if f == 17: a = s.var(); return s.pick(('raw!(%s)', 'raw!({ %s })', 'laby::raw!(%s)')) % a, ['lit(%s);' % a]
        if f == 18:
            t, e = s.text(1, True); u, g = s.text(1, True); d, w = s.pick((('', ''), ('", ", ', ', '), ('"<", ', '<'), ('"", ', '')))
            return 'iter!(%s[%s, %s])' % (d, t, u), e + L(w) + g
        if f == 19 and s.inline: a = s.var(); return 'format_args!("[{}]", %s)' % a, L('[') + ['esc(%s);' % a] + L(']')
        if f == 20:
            k, c = s.cond(); a = s.var(); return 'if %s { Some(%s) } else { None }' % (k, a), ['if %s { esc(%s); }' % (c, a)]
        if f == 21: return s.fragmatch(1)
        return s.text()
    def fragmatch(s, d):
        i = s.inline; s.inline = False
        o = s.fragmatch_(d); s.inline = i; return o
    def fragmatch_(s, d):
        f = s.r.randrange(4)
        if f == 0:
            k, c = s.cond(); t, e = s.node(d - 1); u, g = s.node(d - 1)
            return 'frag_match!(if %s { %s } else { %s })' % (k, t, u), ['if %s { %s } else { %s }' % (c, join(e), join(g))]
        if f == 1:
            k, c = s.cond(); t, e = s.node(d - 1); return 'frag_match!(if %s { %s })' % (k, t), ['if %s { %s }' % (c, join(e))]
        if f == 2:
            v = s.use(s.v); t, e = s.node(d - 1); u, g = s.node(d - 1)
            return 'frag_match!(match %s { 0 => %s, 1..=9 => %s, _ => "many" })' % (v, t, u), ['if %s == 0 { %s } else if %s < 10 { %s } else { lit("many"); }' % (v, join(e), v, join(g))]
        k, c = s.cond(); kk, cc = s.cond(); t, e = s.node(d - 1); u, g = s.node(d - 1)
        return 'frag_match!(if %s { %s } else if %s { %s } else { 0 })' % (k, t, kk, u), ['if %s { %s } else if %s { %s } else { lit("0"); }' % (c, join(e), cc, join(g))]
    # ---- nodes
    def name(s):
        """attribute name: tokens, expected, dynamic"""
        f = s.r.randrange(16)
        ids = ['id', 'class', 'x', 'href', 'data_x', 'title', 'onclick', 'a1', 'Value', 'style', 'name', 'lang', 'div', 'p', '_u', 'bool', 'frag', 'buffer', 't1', 'value', 'del']
        kw = ['type', 'for', 'loop', 'async', 'as', 'in', 'ref', 'match', 'true_', 'fn', 'use', 'static', 'dyn', 'yield']
        if f < 6: n = s.pick(ids); return n, L(n)
        if f < 8: n = s.pick(kw); return 'r#' + n, L(n)
        if f < 11: n = s.pick(['data-x', 'aria-label', 'x:y', '@click', ':bind', 'v-on:a.b', 'é', 'hx-get', '.prop', 'a"b', "q'<"]); return rs(n), L(esc(n))
        if f == 11: return s.pick((("'c'", L('c')), ('7', L('7')), ('(("wrap"))', L('wrap')), ('{ "blk" }', L('blk')), ("'<'", L('&lt;')), ('mk::SEV', L('7')), ('concat!("a", "-b")', L('a-b')), ('"a", "b"'.split(',')[0], L('a')), ('NM[0]', L('n0')), ('S0.f', L('f0')), ('nm("q")', L('q')), ('S0.m("s")', L('s')), ('(id0)', L('data-id0'))))
        a = s.var()
        return s.pick(('{ %s }', '{ let q = %s; q }', 'idf(%s)', 'S0.m(%s)', '[%s][0]', '(%s, 1).0', 'Some(%s)', 'idm!(%s)', '{ { %s } }')) % a, ['esc(%s);' % a]
    def avalue(s, d):
        f = s.r.randrange(12)
        if f < 8: return s.leaf()
        if f == 8 or d <= 0: return s.classes(0)
        if f == 9: return s.frag(0)
        if f == 10: return s.lit()
        return s.node(0)
    def attr(s, d):
        if s.ch(.25):
            n, e = s.name(); f = s.r.randrange(9)
            if f == 0: return '%s = bool!(%s)' % (n, s.pick(('true', '(true)', '{ true }'))), L(' ') + e
            if f == 1: return '%s = bool!(%s)' % (n, s.pick(('false', '(false)', '{ false }', '({ (false) })'))), []
            k, c = s.cond()
            return '%s = bool!(%s)' % (n, k), ['if %s { %s }' % (c, join(L(' ') + e))]
        n, e = s.name(); t, g = s.avalue(d)
        return '%s = %s' % (n, t), L(' ') + e + L('="') + g + L('"')
    def delim(s, c, items):
        body = ', '.join(items) + (',' if items and s.ch(.1) else '')
        o, q = s.pick(('()', '()', '()', '[]', '{}'))
        return c + '!' + o + body + q
    def maybe_hoist(s, t, p=None):
        if s.hoist is not None and s.ch(s.hp if p is None else p):
            h = s.fresh(); s.hoist.append('let %s = %s;' % (h, t)); return h
        return t
    def element(s, d, tag=None):
        tag = tag or s.pick(NORMAL); na = s.pick((0, 0, 0, 1, 1, 2, 3)); nc = s.pick((0, 1, 1, 2, 2, 3, 4))
        if d <= 0: nc = min(nc, 2)
        A = [s.attr(d) for _ in range(na)]; C = [s.node(d - 1) for _ in range(nc)]
        items = [c[0] for c in C]; pos = sorted(s.r.randrange(len(items) + 1) for _ in A)
        for i, a in reversed(list(zip(pos, A))): items.insert(i, a[0])
        e = L('<' + tag)
        for a in A: e += a[1]
        e += L('>')
        for c in C: e += c[1]
        return s.maybe_hoist(s.delim(tag, items)), e + L('</%s>' % tag)
    def void(s, d, tag=None):
        tag = tag or s.pick(VOID); A = [s.attr(d) for _ in range(s.pick((0, 1, 2, 3)))]
        e = L('<' + tag)
        for a in A: e += a[1]
        return s.maybe_hoist(s.delim(tag, [a[0] for a in A])), e + L('>')
    def frag(s, d, sep='', mac='frag', n=None):
        C = [s.pick((('frag!()', []), ('frag! {}', []), ('classes!()', []), ('""', []), ('()', []), ('frag!(frag!())', []))) if s.ch(.1) else s.node(d - 1) for _ in range(n if n is not None else s.pick((0, 1, 2, 2, 3, 4)))]; e = []
        for i, c in enumerate(C): e += (L(sep) if i else []) + c[1]
        return s.maybe_hoist(s.delim(mac, [c[0] for c in C])), e
    def classes(s, d, n=None): return s.frag(d, ' ', 'classes', n)
    def comp(s, d):
        t, e = s.node(d - 1); u, g = s.node(d - 1); f = s.r.randrange(4)
        if f == 0: return 'cmp0!(%s, %s)' % (t, u), L('<section>') + e + g + L('</section>')
        if f == 1: return 'cmp1!(b = %s, a = %s)' % (t, u), L('{') + g + L('|') + e + L('}')
        if f == 2: return 'cmp1!(a = %s)' % t, L('{') + e + L('|dflt}')
        return 'cmp2!(%s, title = %s)' % (t, u), L('<h1>') + g + L('</h1>') + e
    def node(s, d):
        if d < 0: return s.leaf()
        f = s.r.randrange(20)
        if f < 6 and d > 0: return s.element(d)
        if f < 8: return s.void(d)
        if f < 10: return s.frag(d)
        if f == 10: return s.classes(d)
        if f == 11 and d > 0: return s.comp(d)
        if f == 12 and d > 0: return s.fragmatch(d)
        if f == 13 and d > 0:
            i = s.inline; s.inline = False; t, e = s.element(d - 1); s.inline = i; return s.pick(('{ %s }', '(%s)', 'Some(%s)', 'idf(%s)', 'W0(%s)', 'laby::%s', 'S0.m(%s)', 'core::iter::once(%s).next()', 'idm!(%s)', '{ let q = %s; q }')).replace('laby::' if '!' not in t else '\0', '') % (t if '!' in t else '{%s}' % t), e
        if f == 14 and d > 0:
            i = s.inline; s.inline = False; k, c = s.cond(); t, e = s.element(d - 1); s.inline = i; return 'if %s { Some(%s) } else { None }' % (k, t), ['if %s { %s }' % (c, join(e))]
        return s.leaf()
    def decls(s):
        u = s.used; o = ''
        for n, d in ((s.x, 't(1)'), (s.y, 't(1)'), (s.v, 'u8_()'), (s.k, 'bool_()'), (s.l, 'bool_()')):
            if n in u: o += 'let %s = %s; ' % (n, d)
        return o

HELP = '''extern crate alloc;
use alloc::{string::String, format, vec, vec::Vec};
fn idf<T>(v: T) -> T { v }
fn idb(v: bool) -> bool { v }
unsafe fn idu<T>(v: T) -> T { v }
struct S0s { f: &'static str }
static S0: S0s = S0s { f: "f0" };
impl S0s { fn m<T>(&self, v: T) -> T { v } }
struct P0<A, B> { a: A, b: B }
struct W0<T>(T);
impl<T: Render> Render for W0<T> { fn render(self, buffer: &mut Buffer) { self.0.render(buffer) } }
const K7: u8 = 7;
mod mk { pub const SEV: u8 = 7; }
const NM: [&str; 2] = ["n0", "n1"];
fn nm(s: &'static str) -> &'static str { s }
#[allow(non_upper_case_globals)] const id0: &str = "data-id0";
macro_rules! idm { ($e:expr) => { $e } }
macro_rules! const0 { ($e:expr) => {{ const C0: &str = $e; C0 }} }
#[laby] fn cmp0(#[rest] r: impl Render) -> impl Render { section!(r) }
#[laby] fn cmp1(a: impl Render, #[default("dflt")] b: impl Render) -> impl Render { frag!("{", a, "|", b, "}") }
#[laby] fn cmp2(title: impl Render, #[rest] body: impl Render) -> impl Render { frag!(h1!(title), body) }
'''
HEAD = '//! %s (written by tools/gencorpus.py)\nuse crate::pre::*;\nuse laby::*;\n'

def size(t): return len(t)
def write(nn, what, cases, extra=''):
    with open(os.path.join(OUT, 'g%s.rs' % nn), 'w') as f:
        f.write(HEAD % what + HELP + extra + 'case! {\n')
        for n, body in cases: f.write('    %s(b) { %s }\n' % (n, body))
        f.write('}\n')

def balanced(seed, make, lo=40, hi=900, forks=7):
    """draw until the program has a sensible size"""
    for i in range(1000):
        g = Gen('%s/%d' % (seed, i))
        t, e = make(g)
        j = join(e)
        if lo <= len(t) <= hi and j.count('esc(') + 2 * j.count('if ') <= forks * 3 and t.count('iter!') < 4: return g, t, j
    raise SystemExit(seed)

def simple(nn, what, n, make, **kw):
    cases = []
    for i in range(n):
        g, t, j = balanced('%s-%d' % (nn, i), lambda g: make(g, i), **kw)
        cases.append(('h_%s_g%03d' % (nn, i), '%s%s end(b, %s)' % (g.decls(), j, t)))
    write(nn, what, cases)

def main():
    rot = lambda l, i: l[i % len(l)]
    simple('14', 'trees of elements', 110, lambda g, i: g.element(2 + i % 2, rot(NORMAL, i * 7)))
    simple('15', 'void elements among others', 70, lambda g, i: g.void(1, rot(VOID, i)) if i % 2 else (lambda a, b, c: ('p!(%s, %s, %s)' % (a[0], b[0], c[0]), L('<p>') + a[1] + b[1] + c[1] + L('</p>')))(g.void(1, rot(VOID, i)), g.leaf(), g.void(0, rot(VOID, i + 5))))
    def attrs(g, i):
        A = [g.attr(1) for _ in range(2 + i % 4)]; C = [g.leaf() for _ in range(i % 3)]
        it = [a[0] for a in A]
        pos = sorted(g.r.randrange(len(it) + 1) for _ in C)
        for p, c in reversed(list(zip(pos, C))): it.insert(p, c[0])
        tag = g.pick(NORMAL); return '%s!(%s)' % (tag, ', '.join(it)), L('<' + tag) + sum((a[1] for a in A), []) + L('>') + sum((c[1] for c in C), []) + L('</%s>' % tag)
    simple('16', 'attributes of every form', 120, attrs)
    def bools(g, i):
        A = []
        while len(A) < 2 + i % 3:
            a = g.attr(0)
            if 'bool!' in a[0] or len(A) == 1: A.append(a)
        tag = g.pick(NORMAL[:40]); return '%s!(%s)' % (tag, ', '.join(a[0] for a in A)), L('<' + tag) + sum((a[1] for a in A), []) + L('></%s>' % tag)
    simple('17', 'boolean attributes of every form', 100, bools)
    simple('19', 'fragments and class lists in each other', 100, lambda g, i: (g.classes if i % 3 else g.frag)(2, n=2 + i % 3) if i % 2 else (lambda c: ('p!(class = %s, %s)' % (c[0], c[0]), L('<p class="') + c[1] + L('">') + c[1] + L('</p>')))(g.classes(1, n=1 + i % 4)), hi=500)
    # inline and through variables: the same seed builds the same tree with its nodes taken out at random
    cases = []
    for i in range(90):
        mk = lambda g: g.pick((g.element, g.element, g.frag, g.classes))(3)
        for q in range(1000):
            seed = '18-%d/%d' % (i, q)
            g = Gen(seed); g.inline = False; t, e = mk(g); j = join(e)
            if 60 <= len(t) <= 700 and t.count('!') >= 5 and j.count('esc(') + 2 * j.count('if ') <= 18: break
        arms = ['end(b, %s)' % t]
        for v, hp in enumerate((1.0, .5, .3)):
            h = Gen(seed); h.inline = False; h.hoist = []; h.hp = hp
            hr = random.Random('%s+%d' % (seed, v))
            def mh(tt, p=None, h=h, hr=hr, hp=hp):
                if hr.random() < hp: n = h.fresh(); h.hoist.append('let %s = %s;' % (n, tt)); return n
                return tt
            h.maybe_hoist = mh
            tt, ee = mk(h); assert join(ee) == j
            # a tree inside a branch or a closure cannot be built before: only the variables that the rest needs
            arms.append('%s end(b, %s)' % (' '.join(h.hoist), tt))
        arms = list(dict.fromkeys(arms))
        cases.append(('h_18_g%03d' % i, '%s%s match choose(%d) { %s }' % (g.decls(), j, len(arms), ' '.join('%s => { %s }' % (k if k < len(arms) - 1 else '_', a) for k, a in enumerate(arms)))))
    write('18', 'the same tree inline and through variables', cases)
    gen20(); gen21(); gen23(); gen29(); genwide(); genlen(); gennear(); genpoison()

# ---- macros of the user's that are almost called like an element
KW = set('as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv try typeof unsized virtual yield gen w esc lit case'.split())
def gennear():
    base = NORMAL + VOID + ['frag', 'classes', 'bool', 'frag_match', 'iter', 'raw']
    taken = set(base) | KW | {'disp', 'render', 'laby', 'iter_lines', 'format_args', 'vec', 'format'}
    kinds = [lambda t: t.capitalize(), lambda t: t.upper(), lambda t: t + 's', lambda t: t + '_', lambda t: 'x' + t, lambda t: t + '1', lambda t: 'my_' + t, lambda t: t[:-1], lambda t: t[1:], lambda t: t + t, lambda t: t[::-1], lambda t: t[:-1] + t[-1].upper(), lambda t: '_' + t, lambda t: t + '_' + t, lambda t: 'html_' + t, lambda t: t.replace('a', 'á').replace('e', 'é') ]
    AFF = ['%s_el', '%s_tag', '%s_element', '%s_html', '%s_node', '%s_t', '%s2', '%s_macro', '%s_end', '%s__', '%sx', '%sed', '%ser', '%s_component', '%s_item', '%s_of', '%s_inner', '%s_row', '%s_list', '%s_block', '%s_0', '%s_s', '%sel', '%sTag', '%sElement', '%s_link', '%s_text', '%sly', '%sing', 'el_%s', 'tag_%s', 'element_%s', 'h_%s', 'x_%s', 'html5_%s', 'laby_%s', 'svg_%s', 'the_%s', 'a_%s', '__%s', 'no_%s', 'new_%s', 'un%s', 'sub_%s', 'Html%s', 'inner_%s', 'is_%s', 'r_%s', 'w3%s', 'html%s', 'void_%s', 'e%s', 'node_%s', 'make_%s', 'get_%s', 'as_%s', 'to_%s', 'x%s2', '_%s_', 'p_%s', '%s_p', 'div_%s', '%s_div', '%s_frag', 'frag_%s', '%s_bool', '%s_raw', 'i%s', 'h%s', '%s1', '%s0', 'O%s', '%s_a', '%s_html5', '%s_v2', 'old_%s', '%s_old', '%s_impl', '%s_fn']
    S = ['p!(%s, id = %s)', 'frag!(%s, %s)', 'classes!(%s, %s)', 'img!(a = %s, b = %s)', 'div!(b!(%s), %s)', 'p!(a = %s, br!(), (%s))', 'frag!({ %s }, span!(id = %s))', 'p!("t", %s, classes!(%s))', 'near!(%s, z = %s)', 'p!(frag_match!(if k { %s } else { %s }))']
    W = ['<p id="@">@</p>', '@@', '@ @', '<img a="@" b="@">', '<div><b>@</b>@</div>', '<p a="@"><br>@</p>', '@<span id="@"></span>', '<p>t@@</p>', '@-@', '<p>@</p>']
    cases = []; seen = set()
    for q, f in enumerate(kinds):
        arms = []
        for i, t in enumerate(base):
            n = f(t)
            if not n or n in taken or n in seen or not re.fullmatch(r'[^\W\d]\w*', n) or n == '_': continue
            seen.add(n); j = (i + q) % len(S)
            e = []
            for k, part in enumerate(W[j].split('@')):
                if k: e += L('[') + ['esc(x);'] + L(']')
                e += L(part)
            arms.append('{ macro_rules! %s { ($e:expr) => { B9($e) } } %s end(b, %s) }' % (n, join(e), S[j] % ((n + '!(x)', n + '![x]') if i % 2 else (n + '!(x)', n + '!(x)'))))
        cases.append(('h_18_near%02d' % q, 'let x = t(1); let k = bool_(); match choose(%d) { %s }' % (len(arms), '\n        '.join('%s => %s' % (i if i < len(arms) - 1 else '_', a) for i, a in enumerate(arms)))))
    spread = NORMAL[::9] + VOID[::3] + ['frag', 'classes', 'bool']
    for q, a in enumerate(AFF):
        if q % 20 == 0: arms = []
        for i in range(7):
            t = spread[(q * 7 + i * 3) % len(spread)] if i else 'div'
            n = a % t
            if not n or n in taken or n in seen: continue
            seen.add(n); j = (i + q) % len(S); e = []
            for k, part in enumerate(W[j].split('@')):
                if k: e += L('[') + ['esc(x);'] + L(']')
                e += L(part)
            arms.append('{ macro_rules! %s { ($e:expr) => { B9($e) } } %s end(b, %s) }' % (n, join(e), S[j] % ((n + '!(x)', n + '![x]') if i % 2 else (n + '!(x)', n + '!(x)'))))
        if q % 20 == 19 or q == len(AFF) - 1: cases.append(('h_18_nearx%02d' % (q // 20), 'let x = t(1); let k = bool_(); match choose(%d) { %s }' % (len(arms), '\n        '.join('%s => %s' % (i if i < len(arms) - 1 else '_', a) for i, a in enumerate(arms)))))
    with open(os.path.join(OUT, 'near18.rs'), 'w') as f:
        f.write('''//! macros almost called like an element (written by tools/gencorpus.py)
use crate::pre::*;
use laby::*;
struct B9<T>(T);
impl<T: Render> Render for B9<T> { fn render(self, buffer: &mut Buffer) { buffer.push_str("["); self.0.render(buffer); buffer.push_str("]") } }
#[laby] fn near(z: impl Render, #[rest] r: impl Render) -> impl Render { frag!(r, "-", z) }
case! {
''')
        for n, body in cases: f.write('    %s(b) { %s }\n' % (n, body))
        f.write('}\n')

# ---- modules that import one macro and have others of the same names
def genpoison():
    ALLM = NORMAL + VOID + ['frag', 'frag_match', 'classes', 'bool', 'iter', 'iter_lines', 'raw', 'disp', 'render', '__laby_internal_call_fn_named']
    STDM = ['vec', 'format', 'write', 'writeln', 'concat', 'stringify', 'format_args', 'matches', 'assert', 'assert_eq', 'debug_assert', 'panic', 'unreachable', 'todo', 'unimplemented', 'include_str', 'env', 'cfg', 'line', 'file', 'compile_error', 'print', 'println', 'dbg', 'const_format_args', 'thread_local', 'addr_of', 'addr_of_mut', 'ready', 'pin', 'call', 'quote', 'buffer', 't1', 'push_str', 'internal', 'core']
    XE = ['esc(x);']
    P = [('p', '', 'p!(x, a = x, "k", c = 1)', L('<p a="') + XE + L('" c="1">') + XE + L('k</p>')),
        ('img', '', 'img!(src = x, alt = "q")', L('<img src="') + XE + L('" alt="q">')),
        ('frag', '', 'frag!(x, 1, x, "<")', XE + L('1') + XE + L('&lt;')),
        ('frag', '', 'frag!()', []),
        ('classes', '', 'classes!(x, "b", x)', XE + L(' b ') + XE),
        ('frag_match', '', 'frag_match!(if k { x } else { 3 })', ['if k { esc(x); } else { lit("3"); }']),
        ('frag_match', '', 'frag_match!(if k { x })', ['if k { esc(x); }']),
        ('frag_match', '', 'frag_match!(if k { x } else if x.len() > 90 { 1u8 } else { "e" })', ['if k { esc(x); } else { lit("e"); }']),
        ('frag_match', '', 'frag_match!(match k { true => x, false => () })', ['if k { esc(x); }']),
        ('frag_match', '', 'frag_match!(match (k, x) { (true, s) if s.len() < 90 => s, _ => 0 })', ['if k { esc(x); } else { lit("0"); }']),
        ('iter', '', 'iter!([x, x])', XE + XE), ('iter', '', 'iter!(", ", [x, "b"])', XE + L(', b')),
        ('iter_lines', '', 'iter_lines!([x, "b"])', XE + L('\nb')), ('raw', '', 'raw!(x)', ['lit(x);']), ('disp', '', 'disp!(x)', XE),
        ('render', '', '::laby::RenderRaw(render!(x))', XE), ('render', '', '::laby::RenderRaw(render!(x, 5, x))', XE + L('5') + XE), ('render', '', '::laby::RenderRaw(render!())', []),
        ('p, b', '', 'p!(b!(x), id = b!(1))', L('<p id="<b>1</b>"><b>') + XE + L('</b></p>')),
        ('p, bool', '', 'p!(x, a = bool!(k), c = bool!(true), d = bool!(false))', L('<p') + ['if k { lit(" a"); }'] + L(' c>') + XE + L('</p>')),
        ('p, frag_match', '', 'p!(frag_match!(if k { x }), a = frag_match!(match k { true => 1, false => x }))', L('<p a="') + ['if k { lit("1"); } else { esc(x); }'] + L('">') + ['if k { esc(x); }'] + L('</p>')),
        ('laby', '#[laby] fn cz(a: &\'static Str, #[default("d")] z: &\'static Str, #[rest] r: impl ::laby::Render) -> impl ::laby::Render { (a, z, Pair(r)).2 }', 'cz!(a = x, x, 7)', XE + L('7')),
        ('laby', '#[laby] fn cz(a: &\'static Str, #[default] z: u8) -> impl ::laby::Render { Pair(a) }', 'cz!(a = x)', XE),
        ('laby', '#[laby] fn cz(#[rest] r: impl ::laby::Render) -> impl ::laby::Render { r }', 'cz!()', []),
        ('laby', '#[laby] fn cz(#[rest(Pair)] r: Pair<&\'static Str>) -> impl ::laby::Render { r }', 'cz!(x)', XE),
        ('laby, p', '#[laby] fn cz(a: &\'static Str, #[rest] r: impl ::laby::Render) -> impl ::laby::Render { p!(r, id = a) }', 'p!(cz!(x, a = x, 2), x)', L('<p><p id="') + XE + L('">') + XE + L('2</p>') + XE + L('</p>'))]
    used = lambda imp: set(imp.split(', '))
    out = ['//! modules that import only what they use (written by tools/gencorpus.py)', 'use crate::pre::*;', 'type Str = str;', '#[macro_export] macro_rules! poison29 { ($($n:ident)*) => { poison29!{ @ ($) $($n)* } }; (@ ($d:tt) $($n:ident)*) => { $( macro_rules! $n { ($d($d t:tt)*) => { ::laby::RenderRaw("POISON") } } )* } }', 'use laby::Render as R9;', "pub struct Pair<T>(pub T); impl<T: laby::Render> laby::Render for Pair<T> { fn render(self, b: &mut Buffer) { self.0.render(b) } }"]
    cases = []
    for i, (imp, decl, code, e) in enumerate(P):
        for j, kind in enumerate(('none', 'poison', 'std')):
            pz = ''
            if kind != 'none': pz = 'poison29!{ %s }' % ' '.join(m for m in (ALLM if kind == 'poison' else STDM) if m not in used(imp) and m not in KW | {'var'} and m + '!' not in code)
            out.append('mod q%d_%d { use super::{Str, Pair}; use laby::{%s}; %s %s pub fn f(x: &\'static Str, k: bool) -> impl ::laby::Render { %s } }' % (i, j, imp, pz, decl, code))
            cases.append(('h_29_q%d_%s' % (i, kind), 'let x = t(1); let k = bool_(); %s end(b, q%d_%d::f(x, k))' % (join(e), i, j)))
    with open(os.path.join(OUT, 'only29.rs'), 'w') as f:
        f.write('\n'.join(out) + '\ncase! {\n')
        for n, body in cases: f.write('    %s(b) { %s }\n' % (n, body))
        f.write('}\n')

# ---- how much fixed text
LENS = list(range(0, 330)) + [n + d for n in (384, 400, 448, 500, 512, 600, 640, 700, 765, 768, 800, 900, 1000, 1024, 1280, 1500, 1536, 2000, 2048, 3072, 4096) for d in (range(-5, 5) if n in (512, 1024, 2048, 4096, 400, 500, 1000) else (-1, 0, 1))] + [5000, 8191, 8192, 8193, 12000]
LEN_UNITS = 'abcdefghijklmnopqrstuvwxyz0123456789'
def genlen():
    """programs whose fixed text, markup included, has every length"""
    cases = []
    def arm(n):
        r = random.Random('len-%d' % n); shape = n % 5
        def fill(k):
            # k bytes; now and then a longer character
            o = ''; i = n
            while len(o.encode()) < k:
                c = LEN_UNITS[i % 36]; i += 1
                if k - len(o.encode()) > 4 and r.random() < .01: c = r.choice('é世😀')
                o += c
            return o
        if shape == 0 and n >= 11: t = fill(n - 11); return ('div!(%s)' % rs(t), L('<div>' + t + '</div>'))
        if shape == 1 and n >= 24:
            # markup makes up most of it
            body = ''; toks = []; i = 0; room = n - 11
            while room >= 7:
                w, tk = ((('<b></b>', 'b!()')), ('<p>k</p>', 'p!("k")'), ('<br>', 'br!()'), ('<i id="x"></i>', 'i!(id = "x")'))[i % 4]; i += 1
                if len(w) > room: break
                body += w; toks.append(tk); room -= len(w)
            f = fill(room)
            if toks and f: toks.append(rs(f))
            elif f: toks = [rs(f)]
            return 'div!(%s)' % ', '.join(toks), L('<div>' + body + f + '</div>')
        if shape == 2 and n >= 16: t = fill(n - 12); return 'p!(id = %s)' % rs(t), L('<p id="' + t + '"></p>')
        if shape == 3 and n >= 30:
            a = (n - 14) // 2; t, u = fill(a), fill(n - 14 - a)
            return 'p!(%s, x, b!(%s))' % (rs(t), rs(u)), L('<p>' + t) + ['esc(x);'] + L('<b>' + u + '</b></p>')
        t = fill(n); return 'frag!(%s)' % rs(t), L(t)
    for lo in range(0, len(LENS), 33):
        ls = LENS[lo:lo + 33]
        arms = []
        for i, n in enumerate(ls):
            t, e = arm(n); arms.append('%s => { %s end(b, %s) }' % (i if i < len(ls) - 1 else '_', join(e), t))
        cases.append(('h_14_len%02d' % (lo // 33), 'let x = t(1); match choose(%d) { %s }' % (len(ls), '\n        '.join(arms))))
    with open(os.path.join(OUT, 'len14.rs'), 'w') as f:
        f.write('//! fixed text of every length (written by tools/gencorpus.py)\nuse crate::pre::*;\nuse laby::*;\ncase! {\n')
        for n, body in cases: f.write('    %s(b) { %s }\n' % (n, body))
        f.write('}\n')

# ---- conditional fragments
def gen20():
    cases = []
    VALS = [('"s%d"', lambda n: L('s%d' % n)), ('%d', lambda n: L(str(n))), ("'c'", lambda n: L('c')), ('x', lambda n: ['esc(x);']), ('b!(%d, x)', lambda n: L('<b>%d' % n) + ['esc(x);'] + L('</b>')), ('()', lambda n: []), ('Some(%d)', lambda n: L(str(n))), ('frag!(y, "%d")', lambda n: ['esc(y);'] + L(str(n))), ('{ let q = %d; q + 1 }', lambda n: L(str(n + 1))), ('br!()', lambda n: L('<br>')), ('classes!("a", %d)', lambda n: L('a %d' % n)), ('format!("<{}", %d)', lambda n: L('&lt;%d' % n)), ('cmp1!(a = %d)', lambda n: L('{%d|dflt}' % n)), ('raw!("<%d>")', lambda n: L('<%d>' % n)), ('if k { %d } else { 0 }', lambda n: ['if k { lit("%d"); } else { lit("0"); }' % n]), ('%d as u64', lambda n: L(str(n))), ('String::from("o%d")', lambda n: L('o%d' % n)), ('{ x }', lambda n: ['esc(x);']), ('idf(x)', lambda n: ['esc(x);']), ('frag_match!(if k { %d } else { "n" })', lambda n: ['if k { lit("%d"); } else { lit("n"); }' % n]), ('-%d', lambda n: L('-%d' % n)), ('(x, 1).0', lambda n: ['esc(x);']), ('!k', lambda n: ['lit(if k { "false" } else { "true" });']), ('iter!(",", [%d, 0])', lambda n: L('%d,0' % n))]
    def val(r, n):
        t, e = r.choice(VALS); return (t % n if '%d' in t else t), e(n)
    head = 'let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); let l = bool_(); let o = if l { Some(x) } else { None }; let w = (v, k); '
    CONDS = [('k', 'k'), ('l', 'l'), ('!k', '!k'), ('v < 10', 'v < 10'), ('v == 77', 'v == 77'), ('v > 100 && l', 'v > 100 && l'), ('let Some(s) = o', 'let Some(s) = o'), ('let 0..=9 = v', 'v < 10'), ('let (3, true) = w', 'v == 3 && k'), ('matches!(o, None)', '!l'), ('k || l', 'k || l'), ('{ v & 1 == 1 }', 'v & 1 == 1'), ('idf(l)', 'l'), ('o.is_some()', 'l'), ('x.is_empty()', 'false'), ('let Some("never") = o', 'false'), ('true', 'true'), ('false', 'false')]
    for i in range(70):
        r = random.Random('20-%d' % i); n = 1 + r.randrange(5); t = ''; e = ''
        for a in range(n):
            c, d = r.choice(CONDS[:16] if a < n - 1 or r.random() < .7 else CONDS)
            u, g = val(r, a + 1)
            if d == 'let Some(s) = o': u, g = r.choice((('s', ['esc(s);']), ('i!(s)', L('<i>') + ['esc(s);'] + L('</i>'))))
            t += ('else ' if a else '') + 'if %s { %s } ' % (c, u); e += ('else ' if a else '') + 'if %s { %s } ' % (d, join(g))
        if r.random() < .6: u, g = val(r, 9); t += 'else { %s }' % u; e += 'else { %s }' % join(g)
        f = r.randrange(4)
        m = 'frag_match!(%s)' % t
        o, c = (('', ''), ('<p>', '</p>'), ('<p a="', '"></p>'), ('', ' z'))[f]
        m = (m, 'p!(%s)' % m, 'p!(a = %s)' % m, 'classes!(%s, "z")' % m)[f]
        cases.append(('h_20_g%03d' % i, head + join(L(o)) + ' ' + e + ' ' + join(L(c)) + ' end(b, %s)' % m))
    for i in range(70, 150):
        r = random.Random('20-%d' % i); f = r.randrange(3); arms = []; e = ''
        if f == 0:
            P = [('0', 'v == 0'), ('1 | 2', 'v == 1 || v == 2'), ('3..=9', 'v >= 3 && v <= 9'), ('10..', 'v >= 10'), ('n if n == 4', 'v == 4'), ('n @ 5..=6', 'v == 5 || v == 6'), ('_ if k', 'k'), ('255', 'v == 255'), ('n if l && n > 7', 'l && v > 7'), ('b\'a\'', 'v == 97'), ('..=3', 'v <= 3'), ('K7', 'v == 7'), ('mk::SEV', 'v == 7'), ('(8 | 9)', 'v == 8 || v == 9'), ('1 if true', 'v == 1'), ('_ if false', 'false'), ('2..=20 if (false)', 'false'), ('n if true && n == 11', 'v == 11'), ('12 if K7 == 7', 'v == 12'), ('_ if K7 != 7', 'false'), ('| 13 | 14', 'v == 13 || v == 14'), ('15..=30 if idf(k)', 'v >= 15 && v <= 30 && k'), ('_ if { k && !l }', 'k && !l')]; subj = r.choice(('v', '{ v }', 'idf(v)', 'v + 0', '(v)'))
        elif f == 1:
            P = [('Some("a")', 'l && x.as_bytes()[0] == b\'a\''), ('Some(s) if k', 'l && k'), ('None', '!l'), ('Some(_)', 'l'), ('Some(_) if false', 'false'), ('None if true', '!l'), ('Some(s) if s.len() == 99', 'false'), ('Some(s) if matches!(v, 0..=9)', 'l && v < 10'), ('Some("<" | ">")', 'l && (x.as_bytes()[0] == b\'<\' || x.as_bytes()[0] == b\'>\')')]; subj = r.choice(('o', 'idf(o)', 'Some(o).unwrap()'))
        else:
            P = [('(0, true)', 'v == 0 && k'), ('(n, false) if n > 5', 'v > 5 && !k'), ('(_, false)', '!k'), ('(1..=9, _)', 'v >= 1 && v <= 9'), ('(_, true) if l', 'k && l'), ('(n @ 20, _)', 'v == 20'), ('(_, true) if false', 'false'), ('(_, _) if true && v == 31', 'v == 31'), ('(32, ..)', 'v == 32'), ('(.., false) if l', '!k && l')]; subj = r.choice(('w', '(v, k)', '{ w }'))
        r.shuffle(P); n = 1 + r.randrange(len(P))
        for a in range(n):
            u, g = val(r, a + 1)
            if f == 1 and 's' in P[a][0].split()[0] and '(s)' in P[a][0]: u, g = r.choice((('s', ['esc(x);']), ('b!(s)', L('<b>') + ['esc(x);'] + L('</b>'))))
            if r.random() < .2: u = '{ %s }' % u
            arms.append('%s => %s' % (P[a][0], u)); e += ('else ' if a else '') + 'if %s { %s } ' % (P[a][1], join(g))
        u, g = val(r, 9); arms.append('_ => %s' % u); e += 'else { %s }' % join(g)
        t = ' '.join((a + ',') for a in arms)
        if r.random() < .3: t = t[:-1]
        m = 'frag_match!(match %s { %s })' % (subj, t)
        o, c = r.choice((('', ''), ('<p>', '</p>')))
        cases.append(('h_20_g%03d' % i, head + join(L(o)) + ' ' + e + ' ' + join(L(c)) + ' end(b, %s)' % ('p!(%s)' % m if o else m)))
    # many branches
    for i, n in enumerate((11, 27, 40, 70)):
        arms = ''.join('%d => %s, ' % (a, ('%d' % a, '"a%d"' % a, 'x', 'i!(%d)' % a)[(a + i) % 4]) for a in range(n))
        e = 'match v { ' + ''.join('%d => { %s } ' % (a, join((L('%d' % a), L('a%d' % a), ['esc(x);'], L('<i>%d</i>' % a))[(a + i) % 4])) for a in range(n)) + '_ => { lit("other"); } }'
        cases.append(('h_20_many%d' % n, 'let x = t(1); let v = each(u8_() as usize); assume(v <= %d); %s end(b, frag_match!(match v { %s_ => "other" }))' % (n, e, arms)))
        cases.append(('h_20_manyif%d' % n, 'let x = t(1); let v = each(u8_() as usize); assume(v <= %d); %s end(b, p!(frag_match!(%s else { "other" })))' % (n, 'lit("<p>"); ' + e + ' lit("</p>");', ' else '.join('if v == %d { %s }' % (a, ('%d' % a, '"a%d"' % a, 'x', 'i!(%d)' % a)[(a + i) % 4]) for a in range(n)))))
        same = ''.join('%d => "%d", ' % (a, a) for a in range(n))
        cases.append(('h_20_same%d' % n, 'let v = each(u8_() as usize); assume(v <= %d); if v < %d { lit_dec(v as u32) } else { lit("other") } end(b, frag_match!(match v { %s_ => "other" }))' % (n, n, same)))
    write('20', 'conditional fragments of every form', cases)

# ---- components
def gen21():
    decl = []; cases = []
    for i in range(80):
        r = random.Random('21-%d' % i); n = 1 + r.randrange(6); ps = []
        names = r.sample(['a', 'b', 'c', 'title', 'body', 'class', 'id', 'x1', 'href', 'div', 'value', 'name', 'index', 'buffer', 't1', 'item', 'rest_', 'children', 'r#type', 'r#for', '_hidden', 'very_long_parameter_name', 'aA'], n)
        restp = r.randrange(n) if r.random() < .55 else -1
        T = [("&'static str", 'q%d', 's'), ('u8', '', 'n'), ('bool', '', 'k'), ('impl Render', '', 'r'), ("Option<&'static str>", '', 'o')]
        for a in range(n):
            if a == restp: ps.append([names[a], 'impl Render', 'rest', None]); continue
            ty, _, kd = r.choice(T); d = None
            if r.random() < .5:
                d = {'s': [('', ''), ('("d%d")' % a, 'd%d' % a), ('(concat!("d", "<"))', 'd&lt;')], 'n': [('', '0'), ('(%d)' % (a + 3), str(a + 3)), ('(1 + 2 * 3)', '7')], 'k': [('', 'false'), ('(true)', 'true'), ('(!false && 1 < 2)', 'true')], 'r': [('(())', ''), ('("dr")', 'dr'), ('(b!("x"))', '<b>x</b>'), ('({ let q = 4; q })', '4')], 'o': [('', ''), ('(Some("so"))', 'so'), ('(None)', '')]}[kd]
                d = r.choice(d)
            ps.append([names[a], ty, kd, d])
        # impl Render with a default leaves the type to the default or the argument
        sig = []
        for nme, ty, kd, d in ps:
            at = ''
            if kd == 'rest': at = '#[rest] '
            elif d is not None: at = '#[default%s] ' % d[0]
            if r.random() < .12: at = '#[allow(unused_variables)] ' + at
            if r.random() < .08: at = at + '#[allow(unused_mut)] '
            sig.append('%s%s%s: %s' % (at, 'mut ' if r.random() < .08 else '', nme, ty))
        body = 'frag!("(", %s, ")")' % ', ";", '.join(p[0] for p in ps)
        fn = 'cg%02d' % i
        vis = r.choice(('', '', 'pub ', 'pub(crate) '))
        decl.append('#[laby] %sfn %s(%s) -> impl Render { %s }' % (vis, fn, ', '.join(sig) + (',' if r.random() < .1 else ''), body))
        arms = []; g = Gen('21a-%d' % i)
        for c in range(3):
            given = []; e = L('(')
            rest = []; order = list(range(n)); vals = {}
            for a, (nme, ty, kd, d) in enumerate(ps):
                if kd == 'rest':
                    k = r.choice((0, 1, 2, 3, 4)); R = []
                    for _ in range(k): R.append(r.choice((('x', ['esc(x);']), ('"l<"', L('l&lt;')), ('b!(y)', L('<b>') + ['esc(y);'] + L('</b>')), ('5', L('5')), ('idf(y)', ['esc(y);']), ('if k { 1 } else { 2 }', ['lit(if k { "1" } else { "2" });']), ('{ x }', ['esc(x);']), ('br!()', L('<br>')), ('Some(v)', ['lit_dec(v as u32);']), ('frag!()', []), ('v == 3', ['lit(if v == 3 { "true" } else { "false" });']), ('cmp0!(1)', L('<section>1</section>')), ('x as &str', ['esc(x);']), ('-1', L('-1')))))
                    vals[a] = R; continue
                if d is not None and r.random() < .5: vals[a] = None; continue
                vals[a] = r.choice({'s': [('x', ['esc(x);']), ('y', ['esc(y);']), ('"k"', L('k')), ('{ x }', ['esc(x);']), ('if k { x } else { y }', ['esc(if k { x } else { y });']), ('idf(y)', ['esc(y);'])], 'n': [('v', ['lit_dec(v as u32);']), ('9', L('9')), ('v / 2', ['lit_dec(v as u32 / 2);'])], 'k': [('k', ['lit(if k { "true" } else { "false" });']), ('true', L('true')), ('!k', ['lit(if k { "false" } else { "true" });']), ('v == 3', ['lit(if v == 3 { "true" } else { "false" });'])], 'r': [('x', ['esc(x);']), ('p!(y, id = v)', L('<p id="') + ['lit_dec(v as u32);'] + L('">') + ['esc(y);'] + L('</p>')), ('()', []), ("'<'", L('&lt;')), ('frag!(1, x)', L('1') + ['esc(x);']), ('cmp1!(a = y)', L('{') + ['esc(y);'] + L('|dflt}'))], 'o': [('Some(x)', ['esc(x);']), ('None', []), ('if k { Some(y) } else { None }', ['if k { esc(y); }'])]}[kd])
            for a, (nme, ty, kd, d) in enumerate(ps):
                if a: e += L(';')
                if kd == 'rest':
                    for q in vals[a]: e += q[1]
                elif vals[a] is None: e += L(d[1])
                else: e += vals[a][1]; given.append('%s = %s' % (nme, vals[a][0]))
            e += L(')')
            r.shuffle(given)
            if restp >= 0:
                pos = sorted(r.randrange(len(given) + 1) for _ in vals[restp])
                for q, (t, _) in reversed(list(zip(pos, vals[restp]))): given.insert(q, t)
            arms.append('%s end(b, %s!%s)' % (join(e), fn, '(%s)' % ', '.join(given) + ''))
            # the function called directly
            if c == 0:
                full = []
                for a, (nme, ty, kd, d) in enumerate(ps):
                    if kd == 'rest': full.append('frag!(%s)' % ', '.join(q[0] for q in vals[a]))
                    elif vals[a] is None: full.append(d[0] or 'Default::default()')
                    else: full.append(vals[a][0])
                arms.append('%s end(b, %s(%s))' % (join(e), fn, ', '.join(full)))
        cases.append(('h_21_g%03d' % i, "let x = t(1); let y = t(1); let v = u8_(); let k = bool_(); match choose(%d) { %s }" % (len(arms), ' '.join('%s => { %s }' % (q if q < len(arms) - 1 else '_', a) for q, a in enumerate(arms)))))
    write('21', 'components of every signature', cases, '\n'.join(decl) + '\n')

# ---- evaluation and rendering order
ORDER = '''use core::cell::Cell;
pub struct G { l: [Cell<u8>; 160], n: Cell<usize>, c: Cell<u8> }
impl G {
    fn new() -> G { G { l: [const { Cell::new(0) }; 160], n: Cell::new(0), c: Cell::new(0) } }
    fn up(&self) -> u8 { self.c.set(self.c.get() + 1); self.c.get() }
    fn nx(&self) -> V<'_> { self.e(self.up()) }
    fn tk(&self) -> bool { let k = self.up(); self.log(k); k & 1 == 1 }
    fn log(&self, k: u8) { self.l[self.n.get()].set(k); self.n.set(self.n.get() + 1); }
    fn e(&self, k: u8) -> V<'_> { self.log(k); V(self, k) }
    fn s<T>(&self, k: u8, v: T) -> T { self.log(k); v }
    fn same(&self, o: &G, code: u32) { check(self.n.get() == o.n.get(), code); for i in 0..o.n.get().min(self.n.get()) { check(self.l[i].get() == o.l[i].get(), code + 1) } }
}
pub struct V<'a>(&'a G, u8);
impl<'a> Render for V<'a> { fn render(self, b: &mut Buffer) { self.0.log(128 + self.1); b.push((b'A' + self.1 % 26) as char) } }
fn ev<'a>(g: &'a G, k: u8) -> V<'a> { g.e(k) }
fn nx<'a>(g: &'a G) -> V<'a> { g.nx() }
macro_rules! gn { ($g:ident) => { $g.nx() } }
macro_rules! ge { ($g:ident, $k:expr) => { $g.e($k) } }
#[laby] fn oc<'a>(a: impl Render + 'a, b: impl Render + 'a, #[rest] r: impl Render + 'a) -> impl Render + 'a { p!(b, r, id = a) }
macro_rules! go { ($b:ident, $g:ident, $n:expr, $ev:ident, $rd:ident) => {{
    let mut b = $b; let l = b.len(); let n = $n;
    $g.same(&$ev, 20); check(b.len() == l, 24);
    $g.n.set(0); out(&b);
    n.render(&mut b);
    $g.same(&$rd, 22); check_str(b.as_str(), 1);
}} }
'''
class Order:
    def __init__(s, seed): s.r = random.Random(seed); s.k = 0; s.flags = set()
    def val(s):
        """(tokens, evaluations, renderings, text); statements that build the logs"""
        s.k += 1; k = s.k; c = chr(65 + k % 26)
        ev = ['el.log(%d);' % k]; rd = ['rl.log(%d);' % (128 + k)]; w = L(c)
        f = s.r.randrange(18)
        t = ['g.e(%d)', 'g.e(%d)', 'ev_(&g, %d)', 'ge!(g, %d)', '{ g.e(%d) }', '(g.e(%d))', '(|| g.e(%d))()', 'Some(g.e(%d))', 'W0(g.e(%d))', 'if true { g.e(%d) } else { g.e(0) }', 'match 1 { _ => g.e(%d) }', '[g.e(%d)].into_iter().next()', '(g.e(%d), 1).0', 'idf(g.e(%d))', '{ let q = g.e(%d); q }', 'P0 { a: 1, b: g.e(%d) }.b', 'loop { break g.e(%d) }', 'unsafe { idu(g.e(%d)) }'][f] % k
        if t.startswith('ev_'): t = 'ev' + t[3:]
        return t, ev, rd, w
    def cond(s):
        s.k += 1; k = s.k; f = s.r.choice(('k', 'l')); s.flags.add(f)
        return s.r.choice(('g.s(%d, %s)', '{ g.s(%d, %s) }', '(g.s(%d, %s))', '!!g.s(%d, %s)', 'idb(g.s(%d, %s))', 'g.s(%d, %s) && true', 'if g.s(%d, %s) { true } else { false }')) % (k, f), ['el.log(%d);' % k], f
    def lit(s):
        t, w = s.r.choice(LITS[:60]); return t, [], [], L(w)
    def attr(s):
        r = s.r.random()
        if r < .35:
            if s.r.random() < .15: n, a, b, w = s.val(); return '%s = bool!(true)' % n, a, b, L(' ') + w
            if s.r.random() < .1: n, a, b, w = s.val(); return '%s = bool!(false)' % n, [], [], []
            c, a, f = s.cond()
            if s.r.random() < .6: n, a2, b2, w2 = s.val()
            else: n, a2, b2, w2 = 'n%d' % s.k, [], [], L('n%d' % s.k)
            return '%s = bool!(%s)' % (n, c), a + a2, ['if %s { %s }' % (f, ' '.join(b2))] if b2 else [], ['if %s { %s }' % (f, join(L(' ') + w2))]
        if s.r.random() < .45: n, a, b, w = s.val()
        else: n, a, b, w = s.r.choice(('id', 'class', 'r#type', '"data-x"')), [], [], None
        if w is None: w = L(n.replace('r#', '').strip('"'))
        v, a2, b2, w2 = s.val() if s.r.random() < .8 else s.lit()
        return '%s = %s' % (n, v), a + a2, b + b2, L(' ') + w + L('="') + w2 + L('"')
    def node(s, d):
        """inside a parent: the attributes of an element come first, then its children"""
        r = s.r.random()
        if d <= 0 or r < .4: return s.val()
        if r < .5: return s.lit()
        if r < .75: return s.element(d)
        if r < .85: return s.frag(d)
        if r < .9:
            A = [s.attr() for _ in range(s.r.randrange(3))]; tag = s.r.choice(VOID)
            return '%s!(%s)' % (tag, ', '.join(a[0] for a in A)), sum((a[1] for a in A), []), sum((a[2] for a in A), []), L('<' + tag) + sum((a[3] for a in A), []) + L('>')
        if r < .95:
            # component: in the order of its parameters, which are called a, b and the rest
            P = [s.val(), s.val()]; R = [s.node(0) for _ in range(s.r.randrange(3))]
            it = ['a = ' + P[0][0], 'b = ' + P[1][0]]; s.r.shuffle(it); pos = sorted(s.r.randrange(3) for _ in R)
            for i, q in reversed(list(zip(pos, R))): it.insert(i, q[0])
            return 'oc!(%s)' % ', '.join(it), P[0][1] + P[1][1] + sum((q[1] for q in R), []), P[0][2] + P[1][2] + sum((q[2] for q in R), []), L('<p id="') + P[0][3] + L('">') + P[1][3] + sum((q[3] for q in R), []) + L('</p>')
        c, a, f = s.cond(); t, u = s.val(), s.val()
        return 'frag_match!(if %s { %s } else { %s })' % (c, t[0], u[0]), a + ['if %s { %s } else { %s }' % (f, ' '.join(t[1]), ' '.join(u[1]))], ['if %s { %s } else { %s }' % (f, ' '.join(t[2]), ' '.join(u[2]))], ['if %s { %s } else { %s }' % (f, join(t[3]), join(u[3]))]
    def element(s, d, tag=None):
        tag = tag or s.r.choice(NORMAL); A = [s.attr() for _ in range(s.r.randrange(4))]; C = [s.node(d - 1) for _ in range(s.r.randrange(4))]
        it = [c[0] for c in C]; pos = sorted(s.r.randrange(len(it) + 1) for _ in A)
        for i, a in reversed(list(zip(pos, A))): it.insert(i, a[0])
        S = lambda q: sum((a[q] for a in A), [])
        T = lambda q: sum((c[q] for c in C), [])
        return '%s!(%s)' % (tag, ', '.join(it)), S(1) + T(1), S(2) + T(2), L('<' + tag) + S(3) + L('>') + T(3) + L('</%s>' % tag)
    def frag(s, d):
        m, sep = s.r.choice((('frag', ''), ('classes', ' '))); C = [s.node(d - 1) for _ in range(s.r.randrange(5))]; w = []
        for i, c in enumerate(C): w += (L(sep) if i else []) + c[3]
        return '%s!(%s)' % (m, ', '.join(c[0] for c in C)), sum((c[1] for c in C), []), sum((c[2] for c in C), []), w
class Same(Order):
    """every value spelled alike; which one it is depends on when it is evaluated"""
    def __init__(s, seed):
        Order.__init__(s, seed)
        s.sp = s.r.sample(['g.nx()', 'g.nx()', '{ g.nx() }', '(g.nx())', 'nx(&g)', 'gn!(g)', 'Some(g.nx())', 'idf(g.nx())', '(|| g.nx())()', 'W0(g.nx())', '{ let q = g.nx(); q }', '[g.nx()].into_iter().next()', 'if true { g.nx() } else { g.e(0) }'], s.r.choice((1, 1, 2)))
    def val(s):
        s.k += 1; k = s.k; return s.r.choice(s.sp), ['el.log(@%d@);' % k], ['rl.log(128 + @%d@);' % k], ['lit("@L%d@");' % k]
    def cond(s):
        s.k += 1; k = s.k; return s.r.choice(('g.tk()', 'g.tk()', '{ g.tk() }', '!!g.tk()')), ['el.log(@%d@);' % k], '@C%d@' % k
    def lit(s): return s.val() if s.r.random() < .5 else ('"q"', [], [], L('q'))
    def node(s, d):
        for _ in range(50):
            k, st = s.k, s.r.getstate(); q = Order.node(s, d)
            if 'frag_match!' not in q[0]: return q
            s.k = k
        return s.val()
def gen23():
    cases = []
    for i in range(110):
        for q in range(1000):
            o = Order('23-%d/%d' % (i, q)); t, ev, rd, w = (o.element if i % 3 else o.frag)(1 + i % 3)
            if 4 <= o.k <= 24 and len(t) < 900: break
        fl = ''.join('let %s = bool_(); ' % f for f in sorted(o.flags))
        cases.append(('h_23_g%03d' % i, 'let g = G::new(); let el = G::new(); let rl = G::new(); %s%s %s %s go!(b, g, %s, el, rl)' % (fl, ' '.join(ev), ' '.join(rd), join(w), t)))
    for i in range(60):
        for q in range(1000):
            o = Same('23s-%d/%d' % (i, q)); t, ev, rd, w = (o.element if i % 4 else o.frag)(1 + i % 3)
            if 4 <= o.k <= 24 and len(t) < 900: break
        rank = {int(e[8:-3]): n + 1 for n, e in enumerate(ev)}
        ranked = lambda z: re.sub(r'@([LC]?)(\d+)@', lambda m: {'': str(rank[int(m.group(2))]), 'L': chr(65 + rank[int(m.group(2))] % 26), 'C': 'true' if rank[int(m.group(2))] & 1 else 'false'}[m.group(1)], z)
        cases.append(('h_23_s%03d' % i, ranked('let g = G::new(); let el = G::new(); let rl = G::new(); %s %s %s go!(b, g, %s, el, rl)' % (' '.join(ev), ' '.join(rd), join(w), t))))
    # several arguments of render!
    for i in range(16):
        o = Order('23r-%d' % i); C = [o.node(2) for _ in range(2 + i % 3)]
        fl = ''.join('let %s = bool_(); ' % f for f in sorted(o.flags))
        S = lambda q: sum((c[q] for c in C), [])
        cases.append(('h_23_r%03d' % i, 'let g = G::new(); let el = G::new(); %s%s %s %s let s = render!(%s); g.same(&el, 20); end(b, raw!(s))' % (fl, ' '.join(S(1)), ' '.join(x.replace('rl.log', 'el.log') for x in S(2)), join(S(3)), ', '.join(c[0] for c in C))))
    write('23', 'order of evaluation and rendering', cases, ORDER)

# ---- wide and deep templates
WHELP = '''use crate::pre::*;
use laby::*;
static POOL: [&str; 300] = [%s];
#[inline(never)] fn s(i: usize) -> &'static str { POOL[i] }
fn idf<T>(v: T) -> T { v }
''' % ', '.join('"p%d%s"' % (i, '<' if i % 17 == 3 else '') for i in range(300))
def ps(i): return L('p%d%s' % (i, '&lt;' if i % 17 == 3 else ''))
def wwide(nn, cases, extra=''):
    with open(os.path.join(OUT, 'wide%s.rs' % nn), 'w') as f:
        f.write('//! wide and deep templates (written by tools/gencorpus.py)\n' + WHELP + extra + 'case! {\n')
        for n, body in cases: f.write('    %s(b) { %s }\n' % (n, body))
        f.write('}\n')
def genwide():
    X = ['esc(x);']; HD = 'let x = t(1); let v = u8_(); let k = bool_(); '
    def child(i, kind):
        """kind 0: only values; 1: values and fixed text in turn; 2: everything"""
        if kind == 0: return 's(%d)' % i, ps(i)
        if kind == 1: return ('s(%d)' % i, ps(i)) if i % 2 else ('"k%d"' % i, L('k%d' % i))
        f = i % 11
        return [('s(%d)' % i, ps(i)), ('"k%d&"' % i, L('k%d&amp;' % i)), ('b!(s(%d))' % i, L('<b>') + ps(i) + L('</b>')), ('%d' % i, L(str(i))), ('idf(%d)' % i, L(str(i))), ('i!(id = s(%d), "z")' % i, L('<i id="') + ps(i) + L('">z</i>')),
            ('br!()', L('<br>')), ('Some(s(%d))' % i, ps(i)), ('{ x }', X), ('frag!(s(%d), %d)' % (i, i), ps(i) + L(str(i))), ('raw!(s(%d))' % i, L('p%d%s' % (i, '<' if i % 17 == 3 else '')))][f]
    def cat(l): return sum(l, [])
    # children
    cs = []
    for n in (7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 26, 27, 28, 31, 32, 33, 40, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129):
        for kind in (0, 1, 2):
            if kind != 2 and n > 40 and n not in (64, 65, 100, 128): continue
            C = [child(i, kind) for i in range(n)]; T = 'div' if n % 2 else 'section'
            cs.append(('h_14_w%03d_%d' % (n, kind), '%s%s end(b, %s!(%s))' % (HD, join(L('<%s>' % T) + cat([c[1] for c in C]) + L('</%s>' % T)), T, ', '.join(c[0] for c in C))))
    # depth
    for d in (10, 20, 40, 64, 80):
        t, e = 'x', X
        for i in range(d):
            T = NORMAL[(i * 5 + d) % len(NORMAL)]; q = i % 4
            if q == 0: t, e = '%s!(%s)' % (T, t), L('<%s>' % T) + e + L('</%s>' % T)
            elif q == 1: t, e = '%s!(s(%d), %s, "k")' % (T, i, t), L('<%s>' % T) + ps(i) + e + L('k</%s>' % T)
            elif q == 2: t, e = '%s!(id = %d, %s)' % (T, i, t), L('<%s id="%d">' % (T, i)) + e + L('</%s>' % T)
            else: t, e = '%s!(%s, s(%d))' % (T, t, i), L('<%s>' % T) + e + ps(i) + L('</%s>' % T)
        cs.append(('h_14_deep%03d' % d, '%s%s end(b, %s)' % (HD, join(e), t)))
    wwide('14', cs)
    # attributes
    cs = []
    for n in (7, 8, 9, 10, 11, 12, 13, 16, 17, 25, 26, 27, 32, 33, 40, 64, 65, 100, 129):
        for kind in (0, 1):
            A = []
            for i in range(n):
                f = 0 if kind == 0 else i % 7
                A.append([('a%d = s(%d)' % (i, i), L(' a%d="' % i) + ps(i) + L('"')), ('b%d = "v%d"' % (i, i), L(' b%d="v%d"' % (i, i))), ('s(%d) = "<"' % i, L(' ') + ps(i) + L('="&lt;"')), ('"data-%d" = %d' % (i, i), L(' data-%d="%d"' % (i, i))),
                    ('c%d = x' % i, L(' c%d="' % i) + X + L('"')), ('d%d = frag!(s(%d), "-", %d)' % (i, i, i), L(' d%d="' % i) + ps(i) + L('-%d"' % i)), ('e%d = Some(s(%d))' % (i, i), L(' e%d="' % i) + ps(i) + L('"'))][f])
            it = [a[0] for a in A]; T = 'p' if n % 2 else 'nav'
            if kind: it[n // 2:n // 2] = ['s(5)']; it.append('x')
            cs.append(('h_16_w%03d_%d' % (n, kind), '%s%s end(b, %s!(%s))' % (HD, join(L('<%s' % T) + cat([a[1] for a in A]) + L('>') + (ps(5) + X if kind else []) + L('</%s>' % T)), T, ', '.join(it))))
    wwide('16', cs)
    # boolean attributes
    cs = []
    for n in (7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 70):
        for kind in (0, 1):
            A = []
            for i in range(n):
                c = 'j == %d' % i if (i + kind) % 3 else 'j != %d' % i
                nm = ('o%d' % i, L('o%d' % i)) if (kind == 0 or i % 4) else ('s(%d)' % i, ps(i))
                A.append(('%s = bool!(%s)' % (nm[0], c), ['if %s { %s }' % (c, join(L(' ') + nm[1]))]))
                if kind and i % 9 == 4: A.append(('z%d = s(%d)' % (i, i), L(' z%d="' % i) + ps(i) + L('"')))
                if kind and i % 11 == 5: A.append(('w%d = bool!(%s)' % (i, ('true', 'false')[i % 2]), L(' w%d' % i) if i % 2 == 0 else []))
            cs.append(('h_17_w%03d_%d' % (n, kind), 'let j = each(u8_() as usize); assume(j <= %d); %s end(b, input!(%s))' % (n, join(L('<input') + cat([a[1] for a in A]) + L('>')), ', '.join(a[0] for a in A))))
    wwide('17', cs)
    # inline and through variables
    cs = []
    for d in (6, 10, 16, 20, 33, 40, 64, 65, 80):
        for sh in range(3):
            t, e = 'x', X; lets = []; u = 'x'
            for i in range(d):
                T = NORMAL[(i * 7 + d + sh) % len(NORMAL)]; q = (i + sh) % 6
                def put(z): return ['%s!(%s)' % (T, z), '%s!(id = s(%d), "<", %s)' % (T, i, z), 'frag!(%s, "f%d")' % (z, i), 'classes!("c", %s, s(%d))' % (z, i), '%s!(%s, %s!())' % (T, z, VOID[i % len(VOID)]), '%s!(s(%d), %s, x)' % (T, i, z)][q]
                t = put(t); lets.append('let n%d = %s; ' % (i, put(u))); u = 'n%d' % i
                e = [L('<%s>' % T) + e + L('</%s>' % T), L('<%s id="' % T) + ps(i) + L('">&lt;') + e + L('</%s>' % T), e + L('f%d' % i), L('c ') + e + L(' ') + ps(i), L('<%s>' % T) + e + L('<%s></%s>' % (VOID[i % len(VOID)], T)), L('<%s>' % T) + ps(i) + e + X + L('</%s>' % T)][q]
            cs.append(('h_18_deep%03d_%d' % (d, sh), '%s%s if k { end(b, %s) } else { %send(b, %s) }' % (HD, join(e), t, ''.join(lets), u)))
    for n in (9, 13, 17, 27, 33, 65, 100):
        C = [child(i, 2) for i in range(n)]
        cs.append(('h_18_wide%03d' % n, '%s%s if k { end(b, div!(p!(%s), "e")) } else { let q = p!(%s); end(b, div!(q, "e")) }' % (HD, join(L('<div><p>') + cat([c[1] for c in C]) + L('</p>e</div>')), ', '.join(c[0] for c in C), ', '.join(c[0] for c in C))))
        E = [('b!(s(%d))' % i, L('<b>') + ps(i) + L('</b>')) if i % 3 else ('br!(id = s(%d))' % i, L('<br id="') + ps(i) + L('">')) for i in range(n)]
        cs.append(('h_18_sibs%03d' % n, '%s%s if k { end(b, div!(%s)) } else { %send(b, div!(%s)) }' % (HD, join(L('<div>') + cat([c[1] for c in E]) + L('</div>')), ', '.join(c[0] for c in E), ''.join('let n%d = %s; ' % (i, c[0]) for i, c in enumerate(E)), ', '.join('n%d' % i for i in range(n)))))
    # much fixed markup between two values, put together from nested elements
    for total in (1000, 2040, 4090, 8190, 16380, 32760, 65530, 70000):
        C = []; n = 0; i = 0
        while n < total:
            T = NORMAL[(i * 3) % len(NORMAL)]; k = min((37, 300, 1500)[i % 3], max(1, total - n)); z = ('%d' % (i % 10)) * k
            if i % 4 == 3: C.append(('%s!("%s", b!(1, br!()), id = "<%s")' % (T, z, 'a' * (i % 9)), L('<%s id="&lt;%s">%s<b>1<br></b></%s>' % (T, 'a' * (i % 9), z, T)))); n += 40
            else: C.append(('%s!("%s&")' % (T, z), L('<%s>%s&amp;</%s>' % (T, z, T))))
            n += k + 10; i += 1
        t = ', '.join(c[0] for c in C)
        cs.append(('h_18_fixed%05d' % total, '%s%s if k { end(b, div!(x, %s, x)) } else { let q = %s; end(b, div!(x, q, x)) }' % (HD, join(L('<div>') + X + cat([c[1] for c in C]) + X + L('</div>')), t, 'frag!(%s)' % t)))
    wwide('18', cs)
    # fragments and class lists
    cs = []
    for n in (7, 8, 9, 10, 12, 13, 16, 17, 26, 27, 32, 33, 50, 64, 65, 100, 129):
        for kind in (0, 1, 2):
            C = [child(i, kind) for i in range(n)]; sep = []
            for i, c in enumerate(C): sep += (L(' ') if i else []) + c[1]
            tok = ', '.join(c[0] for c in C)
            cs.append(('h_19_w%03d_%d' % (n, kind), '%slet d = b.len(); if k { %s end(b, frag!(%s)) } else if d == 0 { %s end(b, classes!(%s)) } else { %s end(b, p!(class = classes!(%s), classes!("a", "b"))) }' % (HD, join(cat([c[1] for c in C])), tok, join(sep), tok, join(L('<p class="') + sep + L('">a b</p>')), tok)))
    wwide('19', cs)
    # components
    cs = []; decl = ''
    for n in (7, 8, 9, 10, 12, 13, 16, 17, 26, 27, 33, 40):
        r = random.Random('w21-%d' % n)
        sig = ', '.join(('#[default] ' if i % 5 == 4 else '#[default("d%d")] ' % i if i % 5 == 2 else '') + 'a%d: &\'static str' % i for i in range(n))
        decl += '#[laby] fn wc%d(%s) -> impl Render { frag!(%s) }\n' % (n, sig, ', ";", '.join('a%d' % i for i in range(n)))
        decl += '#[laby] fn wr%d(%s, #[rest] z: impl Render) -> impl Render { p!(%s, z) }\n' % (n, sig, ', ";", '.join('a%d' % i for i in range(n)))
        arms = []
        for c in range(4):
            order = list(range(n))
            if c == 1: order.reverse()
            if c == 2: r.shuffle(order)
            if c == 3: order = [i for i in order if i % 5 not in (2, 4)]; r.shuffle(order)
            e = []
            for i in range(n): e += (L(';') if i else []) + (ps(i) if i in order else L('d%d' % i) if i % 5 == 2 else [])
            arms.append('%s end(b, wc%d!(%s))' % (join(e), n, ', '.join('a%d = s(%d)' % (i, i) for i in order)))
            R = [child(i, 2) for i in range(100, 100 + (0, 3, n, 2 * n)[c])]; it = ['a%d = s(%d)' % (i, i) for i in order]
            for q, w in reversed(list(zip(sorted(r.randrange(len(it) + 1) for _ in R), R))): it.insert(q, w[0])
            arms.append('%s end(b, wr%d!(%s))' % (join(L('<p>') + e + cat([w[1] for w in R]) + L('</p>')), n, ', '.join(it)))
        cs.append(('h_21_w%03d' % n, '%smatch choose(%d) { %s }' % (HD, len(arms), ' '.join('%s => { %s }' % (q if q < len(arms) - 1 else '_', a) for q, a in enumerate(arms)))))
    wwide('21', cs, decl)
    # order
    cs = []
    for n in (9, 13, 17, 27, 33, 40, 65, 100):
        C = list(range(1, n + 1)); V = lambda i: chr(65 + i % 26)
        log = ''.join('el.log(%d); rl.log(%d); ' % (i, 128 + i) if i < 128 else '' for i in C)
        pre = 'let g = G::new(); let el = G::new(); let rl = G::new(); ' + log
        cs.append(('h_23_w%03d_ch' % n, pre + '%s go!(b, g, div!(%s), el, rl)' % (join(L('<div>' + ''.join(map(V, C)) + '</div>')), ', '.join('g.e(%d)' % i for i in C))))
        cs.append(('h_23_w%03d_at' % n, pre + '%s go!(b, g, div!(%s), el, rl)' % (join(L('<div' + ''.join(' a%d="%s"' % (i, V(i)) for i in C) + '></div>')), ', '.join('a%d = g.e(%d)' % (i, i) for i in C))))
        # attributes written last come first
        h = n // 2
        cs.append(('h_23_w%03d_mx' % n, pre + '%s go!(b, g, p!(%s), el, rl)' % (join(L('<p' + ''.join(' a%d="%s"' % (i, V(i)) for i in C[:h]) + '>' + ''.join('%s.' % V(i) for i in C[h:]) + '</p>')), ', '.join(['g.e(%d), "."' % i for i in C[h:]] + ['a%d = g.e(%d)' % (i, i) for i in C[:h]]))))
        cs.append(('h_23_w%03d_cl' % n, pre + '%s go!(b, g, classes!(%s), el, rl)' % (join(L(' '.join(map(V, C)))), ', '.join('g.e(%d)' % i for i in C))))
        cs.append(('h_23_w%03d_ne' % n, pre + '%s go!(b, g, %s, el, rl)' % (join(L(''.join('<b>%s' % V(i) for i in C) + '</b>' * n)), 'b!('.join([''] + ['g.e(%d)%s' % (i, ', ' if i < n else '') for i in C]) + ')' * n)))
    wwide('23', cs, ORDER)
    # names: as many locals as fields
    cs = []
    for n in (9, 12, 17, 27, 33, 40):
        C = list(range(1, n + 1)); lets = ''.join('let t%d = s(%d); ' % (i, i) for i in C)
        cs.append(('h_29_w%03d_up' % n, 'let o_ = b; %s%s end(o_, div!(%s))' % (lets, join(L('<div>') + cat([ps(i) for i in C]) + L('</div>')), ', '.join('t%d' % i for i in C))))
        cs.append(('h_29_w%03d_down' % n, 'let o_ = b; %s%s end(o_, div!(%s))' % (lets, join(L('<div>') + cat([ps(i) for i in reversed(C)]) + L('</div>')), ', '.join('t%d' % i for i in reversed(C)))))
        cs.append(('h_29_w%03d_attr' % n, 'let o_ = b; %s%s end(o_, div!(%s))' % (lets, join(L('<div') + cat([L(' t%d="' % i) + ps(i) + L('"') for i in reversed(C)]) + L('></div>')), ', '.join('t%d = t%d' % (i, i) for i in reversed(C)))))
        ty = ''.join('struct T%d(&\'static str); impl Render for T%d { fn render(self, b: &mut Buffer) { b.push_str("T"); self.0.render(b) } } ' % (i, i) for i in C)
        cs.append(('h_29_w%03d_type' % n, 'let o_ = b; %s%s end(o_, div!(%s))' % (ty, join(L('<div>') + cat([L('T') + ps(i) for i in reversed(C)]) + L('</div>')), ', '.join('T%d(s(%d))' % (i, i) for i in reversed(C)))))
        cs.append(('h_29_w%03d_fn' % n, 'let o_ = b; %s%s end(o_, div!(%s))' % (''.join('fn t%d() -> u16 { %d } ' % (i, i) for i in C), join(L('<div>' + ''.join(str(i) for i in reversed(C)) + '</div>')), ', '.join('t%d()' % i for i in reversed(C)))))
    wwide('29', cs)
    # long literals with special characters here and there
    cs = []; arms = []
    for n in list(range(1, 150)) + [159, 160, 161, 191, 192, 193, 200, 223, 224, 225, 250, 255, 256, 257, 288, 300, 383, 384, 385, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 9000]:
        r = random.Random('w22-%d' % n); o = [LEN_UNITS[(i + n) % 36] for i in range(n)]
        for q in {n - 1, 0} if n % 3 == 0 else {n - 1} if n % 3 == 1 else {0}: o[q] = '<>&"\''[(q + n) % 5]
        for _ in range(1 + n // 40 if n % 2 else 1): o[r.randrange(n)] = r.choice('<>&"\'')
        if n > 9 and n % 4 == 1: o[n // 2 - 1] = 'é'
        w = ''.join(o); f = n % 5
        t, e = [('p!(%s)' % rs(w), L('<p>' + esc(w) + '</p>')), ('p!(id = %s, x)' % rs(w), L('<p id="' + esc(w) + '">') + X + L('</p>')), ('frag!(%s, x, %s)' % (rs(w), rs(w[:20])), L(esc(w)) + X + L(esc(w[:20]))), ('classes!(x, %s)' % rs(w), X + L(' ' + esc(w))), ('p!(b!((%s)), a = { %s })' % (rs(w), rs(w[::-1])), L('<p a="' + esc(w[::-1]) + '"><b>' + esc(w) + '</b></p>'))][f]
        arms.append('let w = %s; if k { %s end(b, %s) } else { %s end(b, w) }' % (rs(w), join(e), t, join(L(esc(w)))))
    for lo, hi in [(q, q + 30) for q in range(0, 150, 30)] + [(q, q + 6) for q in range(150, 168, 6)] + [(q, q + 1) for q in range(168, len(arms))]:
        q = lo; a = arms[lo:hi]; cs.append(('h_22_w%03d' % lo, '%smatch choose(%d) { %s }' % (HD, len(a), ' '.join('%s => { %s }' % (i if i < len(a) - 1 else '_', z) for i, z in enumerate(a)))))
    wwide('22', cs)
    # render! of many
    cs = []
    for n in (6, 7, 8, 9, 10, 12, 13, 16, 17, 26, 27, 33, 65):
        C = [child(i, 2) for i in range(n)]
        cs.append(('h_24_w%03d' % n, '%s%s let r_ = render!(%s); end(b, raw!(r_))' % (HD, join(cat([c[1] for c in C])), ', '.join(c[0] for c in C))))
    wwide('24', cs)

# ---- names
def gen29():
    cases = []
    NASTY = ['buffer', 't1', 't2', 't3', 't4', 't5', 'item', 'iter', 'del', 'buf', 'frag', 'div', 'value', 'name', 'render', 'this', 'b', 'p', 'self_', 'T1', 'laby', 'core', 'Render', 'push_str', 'variant_1', 'r#fn', 'args', 'escape', 'x', 'bool', 'raw', 'classes', 'html', 'result', 'data', 'len', 'string', 'node', 'elem', 'tag']
    for i in range(80):
        for q in range(1000):
            r = random.Random('29-%d/%d' % (i, q)); names = r.sample(['t%d' % n for n in range(1, 8)] + ['buffer'] * 2 + NASTY, 5)
            if len(set(names)) < 5: continue
            g = Gen('29-%d/%d' % (i, q), names=names)
            t, e = g.element(2) if i % 3 else g.frag(2); j = join(e)
            if 60 <= len(t) <= 600 and len(g.used) >= 3 and j.count('esc(') + 2 * j.count('if ') <= 14: break
        cases.append(('h_29_g%03d' % i, 'let out_ = b; %s%s end(out_, %s)' % (g.decls(), j, t)))
    write('29', 'templates over variables with the names that expansions use', cases)

main()
