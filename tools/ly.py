"""Build the harness IR from /repo's current tree, run symbolic execution jobs, replay what they report."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
B = os.path.join(VERIF, 'build')
TRIPLE = 'x86_64-unknown-linux-gnu'
ENGINE = os.path.join(VERIF, 'engine/target/release/lysym')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_INCREMENTAL='0')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'): ENV.pop(k, None)

class BuildError(Exception):
    def __init__(s, what, log): super().__init__(what); s.what = what; s.log = log

def sh(cmd, timeout=600, cwd=None, env=None, check=True):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env or ENV)
    if check and r.returncode: raise BuildError(' '.join(cmd[:6]), (r.stdout + r.stderr).decode(errors='replace')[-8000:])
    return r

_sys = None
def rustdir():
    global _sys
    if not _sys: _sys = os.path.join(sh(['rustc', '--print', 'sysroot']).stdout.decode().strip(), 'lib/rustlib', TRIPLE)
    return _sys

def tool(n):
    p = os.path.join(rustdir(), 'bin', n)
    return p if os.path.exists(p) else n

def tree_hash(root, skip=('target', '.git')):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip and not x.startswith('target'))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p): continue
            h.update(os.path.relpath(p, root).encode()); h.update(b'\0')
            with open(p, 'rb') as fh: h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()

def std_bitcode():
    d = os.path.join(B, 'std')
    os.makedirs(d, exist_ok=True)
    for l in ('core', 'alloc'):
        bc = os.path.join(d, l + '.bc')
        if os.path.exists(bc): continue
        lib = [f for f in os.listdir(os.path.join(rustdir(), 'lib')) if re.match(r'lib%s-[0-9a-f]+\.rlib$' % l, f)][0]
        ar = os.path.join(rustdir(), 'lib', lib)
        o = [x for x in sh(['ar', 't', ar]).stdout.decode().split() if x.endswith('.o')][0]
        obj = os.path.join(d, l + '.o')
        with open(obj, 'wb') as f: f.write(sh(['ar', 'p', ar, o]).stdout)
        sh([tool('llvm-objcopy'), '--dump-section=.llvmbc=' + bc + '.tmp', obj])
        os.remove(obj)
        os.rename(bc + '.tmp', bc)

FLAGS = {'rel': '', 'dev': ' -C debug-assertions=on -C overflow-checks=on'}

class Lock:
    def __init__(s, n=''): s.n = n
    def __enter__(s):
        os.makedirs(B, exist_ok=True)
        s.f = open(os.path.join(B, 'lock' + s.n), 'w'); fcntl.flock(s.f, fcntl.LOCK_EX); return s
    def __exit__(s, *a): s.f.close()

def cargo(flavour, feature):
    """compile laby and the harness of one property; the bitcode files, the harness's first"""
    tgt = os.path.join(B, 'tgt-' + flavour)
    os.makedirs(tgt, exist_ok=True)
    key = tree_hash(REPO) + tree_hash(os.path.join(VERIF, 'harness')) + (tree_hash(os.path.join(B, 'gen')) if os.path.isdir(os.path.join(B, 'gen')) else '')
    stamp = os.path.join(tgt, 'stamp')
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old != key:
        # do not trust modification times
        if os.path.exists(stamp): os.remove(stamp)
        for sub in (TRIPLE + '/release', 'release'):
            fp = os.path.join(tgt, sub, '.fingerprint')
            if os.path.isdir(fp):
                for f in os.listdir(fp):
                    if re.match(r'(laby|laby_common|laby_macros|hx)-', f): shutil.rmtree(os.path.join(fp, f))
    env = dict(ENV, RUSTFLAGS='--emit=llvm-bc,link -C codegen-units=1 -C no-prepopulate-passes' + FLAGS[flavour])
    r = subprocess.run(['cargo', 'build', '--release', '--offline', '--target', TRIPLE, '--target-dir', tgt, '--features', feature, '--message-format=json'],
                       cwd=os.path.join(VERIF, 'harness'), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    if r.returncode:
        msgs = []
        pk = set()
        for l in r.stdout.decode(errors='replace').splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            if m.get('reason') == 'compiler-message' and m['message'].get('level') == 'error':
                msgs.append(m['message'].get('rendered') or m['message'].get('message')); pk.add(m['target']['name'])
        e = BuildError('cargo build', '\n'.join(msgs)[-6000:] or r.stderr.decode(errors='replace')[-6000:])
        e.crates = pk
        raise e
    open(stamp, 'w').write(key)
    out = {}
    for l in r.stdout.decode().splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get('reason') != 'compiler-artifact': continue
        for f in m['filenames']:
            g = re.search(r'/%s/release/deps/lib([A-Za-z0-9_]+)-([0-9a-f]+)\.(rlib|rmeta)$' % TRIPLE, f) or re.search(r'/%s/release/lib([A-Za-z0-9_]+)()\.rlib$' % TRIPLE, f)
            if not g: continue
            n = m['target']['name'].replace('-', '_')
            if g.group(2): out[n] = os.path.join(os.path.dirname(f), '%s-%s.bc' % (g.group(1), g.group(2)))
            else:
                # uplifted: the hashed name is the newest one
                d = os.path.join(os.path.dirname(f), 'deps')
                c = [os.path.join(d, x) for x in os.listdir(d) if re.match(r'%s-[0-9a-f]+\.bc$' % n, x)]
                if c and n not in out: out[n] = max(c, key=os.path.getmtime)
    # the harness is compiled once per feature: take the file for this build
    hx = out.pop('hx')
    return hx, [v for v in reversed(list(out.values())) if os.path.exists(v)]

def build_ir(flavour, feature):
    with Lock(): std_bitcode()
    with Lock(flavour):
        hx, deps = cargo(flavour, feature)
        d = os.path.join(B, 'ir'); os.makedirs(d, exist_ok=True)
        ll = os.path.join(d, '%s-%s.ll' % (feature, flavour))
        bc = ll[:-3] + '.bc'
        std = [os.path.join(B, 'std', l + '.bc') for l in ('alloc', 'core')]
        sh([tool('llvm-link'), '--only-needed', hx] + deps + std + ['-o', bc])
        sh([tool('opt'), '-passes=internalize,globaldce,function(sroa,instsimplify,simplifycfg)', '-internalize-public-api-list=h_*', '-S', '--strip-debug', bc, '-o', ll])
    return ll
def raw_ir(ll):
    """the same code as the compiler gave it, without our clean-up passes"""
    raw = ll[:-3] + '.raw.ll'
    with Lock('raw'):
        if not (os.path.exists(raw) and os.path.getmtime(raw) >= os.path.getmtime(ll)):
            sh([tool('opt'), '-passes=internalize,globaldce', '-internalize-public-api-list=h_*', '-S', '--strip-debug', ll[:-3] + '.bc', '-o', raw])
    return raw

# ---- native replay -------------------------------------------------------------------------------
FEAT = {'sse': 0, 'sse2': 1, 'sse3': 2, 'ssse3': 3, 'sse4.1': 4, 'sse4.2': 5, 'popcnt': 6, 'avx': 7, 'avx2': 8, 'fma': 9, 'bmi': 10, 'bmi2': 11, 'lzcnt': 12, 'crc32': -1, 'fxsr': -1, 'mmx': -1, 'x87': -1, 'xsave': -1}
def native(ll):
    """the same IR, compiled, with the processor's identification and the allocator under our control"""
    exe = ll[:-3] + '.exe'
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(ll): return exe
    s = open(ll).read()
    for n, m in (('12___rust_alloc', 'vfn_alloc'), ('19___rust_alloc_zeroed', 'vfn_alloc_zeroed'), ('14___rust_realloc', 'vfn_realloc'), ('14___rust_dealloc', 'vfn_dealloc'), ('26___rust_alloc_error_handler', 'vfn_alloc_error'), ('17rust_begin_unwind', 'vfn_panic')):
        s = re.sub(r'@_RNvC[A-Za-z0-9]+_7___rustc%s\b' % n, '@' + m, s)
    s = re.sub(r'@_RNvC[A-Za-z0-9]+_7___rustc\d+___rust_no_alloc_shim\w*', '@vfn_noop', s)
    s = s.replace('allockind("alloc,uninitialized,aligned")', '').replace('@llvm.x86.xgetbv', '@vfn_xgetbv')
    # CPUID
    extra = ['declare void @vfn_cpuid(i32, i32, ptr)', 'declare void @vfn_feat(i32)', 'declare void @vfn_unreachable()']
    k = [0]
    def asm(m):
        dst, ty, text, cons, args = m.groups()
        if 'cpuid' not in text and 'xgetbv' not in text: return m.group(0)
        k[0] += 1
        outs = [c for c in cons.split(',') if c.startswith('=')]
        fs = [x.strip() for x in ty.strip('{} ').split(',')]
        n = 'vfn_asm%d' % k[0]
        b = ['define internal %s @%s(%s) {' % (ty, n, ', '.join('i32 %%p%d' % i for i in range(args.count('i32'))))]
        if 'cpuid' in text:
            b += ['  %buf = alloca [4 x i32], align 16', '  call void @vfn_cpuid(i32 %%p0, i32 %s, ptr %%buf)' % ('%p1' if args.count('i32') > 1 else '0')]
            idx = [0 if 'ax}' in o else 2 if 'cx}' in o else 3 if 'dx}' in o else 1 for o in outs]
            prev = 'poison'
            for i, (o, t) in enumerate(zip(idx, fs)):
                b += ['  %%g%d = getelementptr i8, ptr %%buf, i64 %d' % (i, 4 * o), '  %%l%d = load i32, ptr %%g%d' % (i, i)]
                v = '%%l%d' % i
                if t == 'i64': b.append('  %%z%d = zext i32 %%l%d to i64' % (i, i)); v = '%%z%d' % i
                b.append('  %%r%d = insertvalue %s %s, %s %s, %d' % (i, ty, prev, t, v, i)); prev = '%%r%d' % i
            b += ['  ret %s %s' % (ty, prev), '}']
        else:
            b += ['  %%x = call i64 @vfn_xgetbv(i32 0)', '  %lo = trunc i64 %x to i32', '  %h = lshr i64 %x, 32', '  %hi = trunc i64 %h to i32', '  %%r0 = insertvalue %s poison, i32 %%lo, 0' % ty, '  %%r1 = insertvalue %s %%r0, i32 %%hi, 1' % ty, '  ret %s %%r1' % ty, '}']
            if '@vfn_xgetbv' not in s: extra.append('declare i64 @vfn_xgetbv(i32)')
        extra.append('\n'.join(b))
        return '%scall %s @%s(%s)' % (dst, ty, n, args)
    s = re.sub(r'(%[\w.]+ = )call (\{[^}]*\}) asm (?:sideeffect )?(?:alignstack )?(?:inteldialect )?"([^"]*)", "([^"]*)"\(([^)]*)\)', asm, s)
    # code for particular processors
    feats = {}
    for m in re.finditer(r'^attributes #(\d+) = \{(.*)\}', s, re.M):
        t = re.search(r'"target-features"="([^"]*)"', m.group(2))
        if t:
            bits = 0
            for f in t.group(1).split(','):
                if f.startswith('+'):
                    i = FEAT.get(f[1:], 31)
                    if i >= 0: bits |= 1 << i
            if bits: feats[m.group(1)] = bits if bits < 1 << 31 else bits - (1 << 32)
    out = []; pend = None
    for l in s.split('\n'):
        if l.startswith('define '):
            m = re.search(r' #(\d+)\b', l)
            out.append(l)
            pend = feats.get(m.group(1)) if m else None
            continue
        if pend is not None:
            if re.match(r'^[\w.$"-]+:', l): out.append(l); out.append('  call void @vfn_feat(i32 %d)' % pend); pend = None; continue
            out.append('  call void @vfn_feat(i32 %d)' % pend); pend = None
        if l.strip() == 'unreachable': out.append('  call void @vfn_unreachable()')
        out.append(l)
    p = ll[:-3] + '.nat.ll'
    open(p, 'w').write('\n'.join(out) + '\n' + '\n'.join(extra) + '\n')
    sh([tool('llc'), '-O1', '-filetype=obj', '-relocation-model=pic', p, '-o', p[:-3] + '.o'])
    sh(['cc', p[:-3] + '.o', os.path.join(B, 'librt.a'), '-rdynamic', '-lpthread', '-ldl', '-lm', '-lgcc_s', '-o', exe])
    os.remove(p[:-3] + '.o')
    return exe

def cpu_arg(cpu): return ';'.join('%d,%d,%s' % (l, s, ','.join(str(x) for x in r)) for l, s, r in cpu)
def tape_arg(t): return ','.join(str(v) for _, v in t)
def run_native(exe, entry, params, tape, cpu, timeout=20, soft=False):
    cmd = [exe, entry, 'params=' + ','.join(str(x) for x in params), 'tape=' + tape_arg(tape), 'cpu=' + cpu_arg(cpu)] + (['soft=1'] if soft else [])
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired: return -99, 'timeout', cmd
    return r.returncode, r.stdout.decode(errors='replace').strip()[-600:], cmd

# ---- symbolic jobs ---------------------------------------------------------------------------------
class Worker:
    def __init__(s, ll, opts):
        s.p = subprocess.Popen([ENGINE, ll, '-', '-'] + opts, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1)
    def run(s, line):
        try:
            s.p.stdin.write(line + '\n'); s.p.stdin.flush()
            l = s.p.stdout.readline()
            return json.loads(l) if l else None
        except (BrokenPipeError, ValueError): return None
    def rss(s):
        try: return int(open('/proc/%d/statm' % s.p.pid).read().split()[1]) * 4096
        except OSError: return 0
    def close(s):
        try: s.p.stdin.close()
        except OSError: pass
        try: s.p.wait(5)
        except subprocess.TimeoutExpired: s.p.kill(); s.p.wait()
    def kill(s): s.p.kill(); s.p.wait()

def run_jobs(jobs, irs, deadline, nproc=8, progress=None, stop=None):
    """jobs: [(flavour, line, seconds)], heaviest first; gives [(flavour, line, result or None)]"""
    todo = list(jobs); lk = threading.Lock(); res = []
    halt = threading.Event()
    def work():
        w = None; wf = None
        while not halt.is_set():
            with lk:
                if not todo or time.time() > deadline: break
                # stay with the same IR when possible
                i = next((i for i, j in enumerate(todo) if j[0] == wf), 0)
                if i > 40: i = 0
                fl, line, secs = todo.pop(i)
            if w and (wf != fl or w.rss() > 2 << 30): w.close(); w = None
            if not w: w = Worker(irs[fl], ['timeout=20000']); wf = fl
            left = deadline - time.time()
            secs = max(1.0, min(secs, left))
            box = []
            t = threading.Thread(target=lambda: box.append(w.run('%s time=%.1f' % (line, secs))), daemon=True)
            t.start()
            t0 = time.time()
            while t.is_alive() and time.time() - t0 < secs + 45:
                t.join(0.5)
                if w.rss() > 7 << 30: break
                if halt.is_set(): break
            if t.is_alive(): w.kill(); t.join(); w = None; r = None
            else:
                r = box[0] if box else None
                if r is None: w.kill(); w = None
            with lk:
                res.append((fl, line, r))
                if progress: progress(fl, line, r)
                if r and r['violations'] and stop and stop(fl, line, r): halt.set()
        if w: w.close()
    ts = [threading.Thread(target=work) for _ in range(nproc)]
    for t in ts: t.start()
    for t in ts: t.join()
    for j in todo: res.append((j[0], j[1], None))
    return res

def interpret(ll, line, tape, cpu):
    """the same job with concrete values only"""
    w = Worker(ll, [])
    extra = ' tape=%s' % (tape_arg(tape) or '0') + (' cpuid=%s' % cpu_arg(cpu) if cpu else '')
    r = w.run(line + ' time=60' + extra)
    w.close()
    return r
