"""Programs that use every identifier which the expansions of laby's macros introduce, found by expanding samples with /repo's
current code, as a variable, function, type, macro, module, component, parameter and attribute name. Written to build/gen/names.rs."""
import os, re, shutil, subprocess
import ly
NORMAL = 'a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul var video'.split()
VOID = 'area base br col embed hr img input link meta param source track wbr'.split()
MACROS = set(NORMAL + VOID + 'frag classes iter iter_lines raw disp render laby frag_match doctype bool format_args cq'.split())
KEYWORDS = set('as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv try typeof unsized virtual yield gen union auto default macro_rules'.split())
# template of a value V (used several times), expected text; what else it needs
T = [('%s!(id = V, V)' % t, 'w!["<%s id=\\"", [x], "\\">", [x], "</%s>"];' % (t, t)) for t in NORMAL] + [('%s!(alt = V)' % t, 'w!["<%s alt=\\"", [x], "\\">"];' % t) for t in VOID]
T += [('div!(p!(V, a = V), V, span!(b!(V)), "z")', 'w!["<div><p a=\\"", [x], "\\">", [x], "</p>", [x], "<span><b>", [x], "</b></span>z</div>"];'), ('frag!(V, "k", classes!(V, V))', 'w![[x], "k", [x], " ", [x]];'), ('classes!(V, frag!(V), "c")', 'w![[x], " ", [x], " c"];'),
      ('p!(a = bool!(k), V, b = bool!(!k))', 'w!["<p"]; if k { lit(" a") } else { lit(" b") } w![">", [x], "</p>"];'), ('frag_match!(if k { V } else { p!(V) })', 'if k { esc(x) } else { w!["<p>", [x], "</p>"]; }'), ('frag_match!(if !k { V })', 'if !k { esc(x) }'),
      ('frag_match!(match k { true => V, false => frag!("f", V) })', 'if !k { lit("f") } esc(x);'), ('frag_match!(if k { V } else if !k { "n" } else { V })', 'if k { esc(x) } else { lit("n") }'), ('iter!(", ", [V, V])', 'w![[x], ", ", [x]];'), ('iter!([V])', 'w![[x]];'), ('iter_lines!([V, V])', 'w![[x], "\\n", [x]];'),
      ('raw!(render!(V, p!(V)))', 'w![[x], "<p>", [x], "</p>"];'), ('cq!(a = V, V, b!(V))', 'w!["<p a=\\"", [x], "\\">", [x], "<b>", [x], "</b>d</p>"];'), ('disp!(V)', 'w![[x]];'), ('p!(V = V)', 'w!["<p ", [x], "=\\"", [x], "\\"></p>"];'), ('p!(V = bool!(k))', 'w!["<p"]; if k { w![" ", [x]]; } lit("></p>");'),
      ('html!(head!(title!(V), meta!(name = V)), body!(V))', 'w!["<html><head><title>", [x], "</title><meta name=\\"", [x], "\\"></head><body>", [x], "</body></html>"];'), ('frag!(::laby::DocType::HTML5, V)', 'w!["<!DOCTYPE html>", [x]];')]
COMPS = ['#[laby] fn cq(a: impl Render, #[default("d")] d: &\'static str, #[rest] r: impl Render) -> impl Render { p!(a = a, r, d) }']
SAMPLE = '''#![allow(warnings)]
extern crate alloc;
%s
'''
def idents(s):
    s = re.sub(r'"(\\.|[^"\\])*"', '""', s); s = re.sub(r"'[a-z_]+\b(?!')", '', s); s = re.sub(r"b?'(\\.[^']*|[^'\\])'", '', s); s = re.sub(r'//[^\n]*|/\*.*?\*/', '', s, flags=re.S)
    return {i for i in re.findall(r'(?<![\w#])[A-Za-z][A-Za-z0-9_]*\b', s) if i not in KEYWORDS}

def prepare():
    d = os.path.join(ly.B, 'expand'); g = os.path.join(ly.B, 'gen'); os.makedirs(os.path.join(d, 'src'), exist_ok=True); os.makedirs(g, exist_ok=True)
    h = os.path.join(ly.VERIF, 'harness')
    s = open(os.path.join(h, 'Cargo.toml')).read(); s = re.sub(r'\[features\].*?\n\n', '', s, flags=re.S).replace('name = "hx"', 'name = "hx"')
    open(os.path.join(d, 'Cargo.toml'), 'w').write(s); shutil.copy(os.path.join(h, 'Cargo.lock'), d)
    mods = ''
    for i, (t, _) in enumerate(T):
        mods += 'mod zz%d { use laby::*; %s pub fn zf(zx: &\'static str, k: bool, mut zb: laby::internal::Buffer) { (%s).render(&mut zb) } }\n' % (i, COMPS[0] if 'cq!' in t else '', t.replace('V = V', '{ V } = V').replace('V = bool', '{ V } = bool').replace('V', 'zx'))
    mods += 'mod zz%d { }\n' % len(T)
    open(os.path.join(d, 'src/lib.rs'), 'w').write(SAMPLE % mods)
    found = {}
    with ly.Lock('expand'):
        tgt = os.path.join(ly.B, 'tgt-expand')
        for sub in ('debug', 'release'):
            fp = os.path.join(tgt, sub, '.fingerprint')
            if os.path.isdir(fp):
                for f in os.listdir(fp):
                    if re.match(r'(laby|laby_common|laby_macros|hx)-', f): shutil.rmtree(os.path.join(fp, f))
        r = subprocess.run(['cargo', 'rustc', '--offline', '--profile', 'check', '--lib', '--target-dir', tgt, '--', '-Zunpretty=expanded'], cwd=d, env=dict(ly.ENV, RUSTC_BOOTSTRAP='1'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        if r.returncode:
            r = subprocess.run(['cargo', 'rustc', '--offline', '--lib', '--target-dir', tgt, '--', '-Zunpretty=expanded'], cwd=d, env=dict(ly.ENV, RUSTC_BOOTSTRAP='1'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    txt = r.stdout.decode(errors='replace')
    parts = re.split(r'^mod zz(\d+) \{', txt, flags=re.M)
    for i in range(1, len(parts) - 1, 2):
        n = int(parts[i])
        if n >= len(T): continue
        own = idents(T[n][0]) | idents(COMPS[0]) | {'use', 'laby', 'zx', 'zf', 'zb', 'str', 'internal', 'Buffer', 'render', 'inline', 'macro_export', 'doc', 'allow', 'automatically_derived', 'rustfmt', 'unused_imports'}
        own -= {'laby', 'str', 'internal', 'Buffer', 'render', 'inline'}
        for w in idents(parts[i + 1]):
            if re.fullmatch(r'zz\d+|zx|zf|zb', w): continue
            found.setdefault(w, set()).add(n)
    log = r.stderr.decode(errors='replace')
    ok = bool(found)
    return write(g, found if ok else {}, '' if ok else log)

def cases(w, ts):
    """the uses of one identifier"""
    o = []; up = w[0].isupper(); r = w
    def arms(val, pre='', dpre=''):
        l = []
        for t in ts:
            tt, e = T[t]
            if val.startswith(r + ' {') and 'frag_match!(match' in tt: pass
            tt = re.sub(r'\bV = V', '{ V } = V', tt); tt = re.sub(r'\bV = bool', '{ V } = bool', tt)
            if 'disp!' in tt and 'STRUCT' in dpre: continue
            l.append('%s end(b, %s)' % (e, re.sub(r'\bV\b', lambda m: val, tt)))
        return 'match choose(%d) { %s }' % (len(l), ' '.join('%s => { %s }' % (i if i < len(l) - 1 else '_', a) for i, a in enumerate(l))) if l else 'end(b, "")'
    head = 'let k = bool_(); '
    if not up: o.append(('v', head + 'let x = t(1); let %s = x; %s' % (r, arms(r))))
    o.append(('f', head + 'let x = t(1); #[allow(non_snake_case)] fn %s(s: &\'static Str) -> &\'static Str { s } %s' % (r, arms(r + '(x)'))))
    o.append(('s', head + 'let x = t(1); #[allow(non_camel_case_types)] struct %s { v: &\'static Str } impl ::laby::Render for %s { fn render(self, o: &mut BufferT) { ::laby::Render::render(self.v, o) } } impl ::core::fmt::Display for %s { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(self.v) } } %s' % (r, r, r, arms('(%s { v: x })' % r))))
    o.append(('t', head + 'let x = t(1); #[allow(non_camel_case_types)] type %s = &\'static Str; %s' % (r, arms('(x as %s)' % r))))
    if w not in MACROS: o.append(('m', head + 'let x = t(1); macro_rules! %s { ($e:expr) => { $e } } %s' % (r, arms(r + '!(x)'))))
    o.append(('d', head + 'let x = t(1); mod %s { pub fn it(s: &\'static str) -> &\'static str { s } } %s' % (r, arms(r + '::it(x)'))))
    o.append(('l', head + 'let x = t(1); struct Q9 { %s: &\'static Str } impl Q9 { fn %s(&self) -> &\'static Str { self.%s } } let q9 = Q9 { %s: x }; %s' % (r, r, r, r, arms(r'(if k { q9.%s } else { q9.%s() })' % (r, r)))))
    if not up: o.append(('n', 'let x = t(1); let k = bool_(); w!["<p %s=\\"", [x], "\\""]; if k { lit(" %s") } w!["><img %s></p>"]; end(b, p!(%s = x, img!(%s = bool!(true)), %s = bool!(k)))' % (w, w, w, r, r, r)))
    return o

def write(g, found, log):
    names = sorted(set(found) - {'cq'})
    out = ['// names from the expansions (written by tools/gen29.py)', 'use crate::pre::{*, Buffer as BufferT, t};', 'use laby::*;', 'type Str = str;', COMPS[0], '']
    if log: out.append('/* no expansion available: %s */' % log.replace('*/', '')[-400:])
    body = []; hs = []
    for i, w in enumerate(names):
        if w.startswith('_') or w in ('main', 't', 'b', 'x', 'k') and False: continue
        # the templates whose expansion has it, and a few others
        ts = sorted(found[w]); pick = ts if len(ts) <= 6 else [ts[0], ts[len(ts) // 3], ts[2 * len(ts) // 3]] + [t for t in ts if t >= len(NORMAL) + len(VOID)]
        pick = list(dict.fromkeys(pick + [115 + i % 3]))
        for kind, c in cases(w, pick):
            # names of ours that the identifier may hide
            if kind in 'vf' and w in ('x', 'k', 'b', 't', 'end', 'lit', 'esc', 'w', 'choose', 'bool_'): continue
            if kind in 'st' and w in ('Str', 'BufferT', 'Q9'): continue
            h = 'h_29_%s_%s' % (kind, w)
            hs.append(h); body.append('    %s(b) { %s }' % (h, c))
    # components and their parameters
    decl = []
    for w in names:
        if w.startswith('_') or w[0].isupper(): continue
        nm = 'cz_' + w
        decl.append('#[laby] fn %s(%s: impl Render, #[default("q")] z9: &\'static Str, #[rest] r9: impl Render) -> impl Render { p!(%s, z9, r9) }' % (nm, w, w))
        hs.append('h_29_p_' + w); body.append('    h_29_p_%s(b) { let x = t(1); w!["<p>", [x], "q5</p>"]; end(b, %s!(%s = x, 5)) }' % (w, nm, w))
        if w not in MACROS and w not in KEYWORDS:
            hs.append('h_29_c_' + w); body.append('    h_29_c_%s(b) { let x = t(1); #[laby] fn %s(a: &\'static Str, #[default] z: Str9) -> impl Render { b!(a, z.0) } w!["<b>", [x], "0</b>"]; end(b, %s!(a = x)) }' % (w, w, w))
    out += decl + ['#[derive(Default)] pub struct Str9(u8);', 'case! {'] + body + ['}']
    p = os.path.join(g, 'names.rs'); s = '\n'.join(out) + '\n'
    if not os.path.exists(p) or open(p).read() != s: open(p, 'w').write(s)
    return hs
if __name__ == '__main__': print(len(prepare()))
