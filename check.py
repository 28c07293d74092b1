#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property of /repo's current tree."""
import json, os, random, re, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import ly, jobs as J
VERIF = ly.VERIF
# reports about what the processor or allocator would do: the interpreter's word is enough
UB = re.compile(r'^(read|write|misaligned|dealloc|realloc|allocation|free|copy_nonoverlapping|undefined|uninitialised|compiler assumption|unreachable|code compiled|XGETBV|data race|stack overflow|call of|comparison of uninit|a heap|shift|pointer|division|store|load|branch)')

CONTENT = re.compile(r'^(output |assertion (?!3 ))')

# where undefined values come from our own clean-up passes
UNDEFINED = re.compile(r'^(undefined value used|uninitialised value)')
def known(pid):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) entry=(.+?) msg=(.+)$', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import random
    todo = J.ALL[pid](tier, random.Random(seed))
    if pid == 'C29':
        import gen29
        todo += J.named(gen29.prepare(), tier)
    only = os.environ.get('LY_ONLY')
    if only: todo = [j for j in todo if re.search(only, j[1])]
    meta = J.META.get(pid, {})
    if meta.get('soft'): todo = [(fl, line + ' soft=1' if meta['soft'](fl) else line, t) for fl, line, t in todo]
    feat = pid.lower()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rdir = os.path.join(ly.B, 'replays'); os.makedirs(rdir, exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking'}
    def write(cov, viol, assumptions):
        ev['coverage'] = cov; ev['violations'] = viol; ev['assumptions'] = assumptions; ev['wall_s'] = round(time.time() - t0, 2)
        p = os.path.join(VERIF, 'evidence', pid + '.json')
        with open(p + '.tmp', 'w') as f: json.dump(ev, f, indent=1)
        os.rename(p + '.tmp', p)
    irs = {}
    if not os.path.exists(ly.ENGINE): os.system(os.path.join(VERIF, 'setup.sh'))
    try:
        fls = sorted({j[0] for j in todo}); errs = []
        def build(fl):
            try: irs[fl] = ly.build_ir(fl, feat)
            except BaseException as e: errs.append(e)
        import threading
        ts = [threading.Thread(target=build, args=(fl,)) for fl in fls]
        for x in ts: x.start()
        for x in ts: x.join()
        if errs: raise next((e for e in errs if isinstance(e, ly.BuildError)), errs[0])
    except ly.BuildError as e:
        crates = getattr(e, 'crates', set())
        print('build failed:', e.what); print(e.log[-3000:])
        # the library compiles but programs that use it as documented no longer do
        if crates == {'hx'} and meta.get('compile_is_violation'):
            rp = os.path.join(rdir, pid + '-compile.txt')
            open(rp, 'w').write('cd /verif/harness && cargo +stable build --offline --features %s   # fails:\n\n%s' % (feat, e.log))
            write({'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [{'compile': e.log[-1500:]}]}, 1, [])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            return 1
        write({'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [{'note': 'the code does not build with the harness: ' + e.log[-800:]}]}, 0, ['nothing explored: build failed'])
        return 2
    tb = time.time() - t0
    limit = {'quick': 240, 'thorough': 3000}[tier]
    deadline = time.time() + limit
    todo.sort(key=lambda j: -j[2])
    verdicts = []; notes = []
    def prog(fl, line, r):
        if os.environ.get('LY_V'):
            if r is None: print('  %s %s: NO ANSWER' % (fl, line), flush=True)
            else: print('  %s %s: %d paths %d states %.1fs%s%s%s%s' % (fl, line, r['paths'], r['states'], r['wall'], ' BUDGET' if r['budget'] else '', ' unsupported %s' % r['unsupported'] if r['unsupported'] else '', ' UNDECIDED' if r['undecided'] else '', ' VIOLATION ' + r['violations'][0]['msg'] if r['violations'] else ''), flush=True)
    exes = {}; el = {fl: threading.Lock() for fl in irs}
    def exe(fl):
        if fl not in irs: return None
        with el[fl]:
            if fl not in exes:
                try: exes[fl] = ly.native(irs[fl])
                except Exception as e: exes[fl] = None; notes.append('native build failed: ' + str(e) + str(getattr(e, 'log', ''))[-500:])
            return exes[fl]
    for fl in irs: threading.Thread(target=exe, args=(fl,), daemon=True).start()
    vl = threading.Lock()
    kn = known(pid)
    def confirm(fl, line, v):
        """(confirmed, how)"""
        w = line.split(); entry = w[0]; params = [int(x) for x in w[1:] if '=' not in x]
        c = ly.interpret(irs[fl], line, v['tape'], v['cpu'])
        cm = c['violations'][0]['msg'] if c and c['violations'] else None
        e = exe(fl); nrc, nout, ncmd = (None, '', [])
        tapes = [v['tape']]
        for alt in meta.get('alternatives', lambda *a: [])(entry, v): tapes.append(alt)
        if e and not meta.get('interpreter_only', lambda e: False)(entry):
            for t in tapes:
                nrc, nout, ncmd = ly.run_native(e, entry, params, t, v['cpu'], soft='soft=1' in w)
                if nrc not in (0, 77, 78, 2): break
        nat = nrc is not None and nrc not in (0, 77, 78, 2, -99)
        ub = bool(UB.match(v['msg']))
        if ub and not nat and cm is not None and UNDEFINED.match(v['msg']):
            # passes may leave undefined parts in values that are defined where it matters: ask the code as the compiler gave it
            try: c = ly.interpret(ly.raw_ir(irs[fl]), line, v['tape'], v['cpu'])
            except Exception as e: c = None; notes.append('no second opinion: ' + str(e)[-300:])
            if c is not None and not c['violations'] and not c['unsupported'] and not c['budget']: cm = None
        ok = nat or (cm is not None and (ub or e is None or meta.get('interpreter_only', lambda e: False)(entry)))
        return ok, {'symbolic': v['msg'], 'interpreted': cm, 'native': {'rc': nrc, 'out': nout, 'cmd': ' '.join("'%s'" % x for x in ncmd)}}
    def on_violation(fl, line, r):
        with vl:
            for v in r['violations']:
                if meta.get('ignore') and re.match(meta['ignore'], v['msg']): continue
                if meta.get('differs') and CONTENT.match(v['msg']):
                    # wrong everywhere is another property's business; different between the profiles is this one's
                    w = line.split(); e = exe('rel' if fl == 'dev' else 'dev'); e0 = exe(fl)
                    a = (w[0], [int(x) for x in w[1:] if '=' not in x], v['tape'], v['cpu'])
                    if not e or not e0 or ly.run_native(e, *a)[0] != 0 or ly.run_native(e0, *a)[0] == 0: continue
                ok, how = confirm(fl, line, v)
                if not ok:
                    notes.append('unconfirmed report in "%s %s": %s (interpreter: %s, native: %s)' % (fl, line, v['msg'], how['interpreted'], how['native']['out']))
                    continue
                k = next((k for k in kn if line.startswith(k[0]) and k[1] in v['msg']), None)
                if k: verdicts.append(('known', fl, line, v, how))
                else:
                    verdicts.append(('new', fl, line, v, how))
                    return True
            return False
    res = ly.run_jobs(todo, irs, deadline, progress=prog, stop=on_violation)
    # passing inputs the engine picked, run natively: the model and the code must agree
    valid = 0; samples = []
    cand = []
    for fl, line, r in res:
        if not r or r['violations']: continue
        for s in r['samples'][:2]: cand.append((fl, line, s))
    rnd = random.Random(seed); rnd.shuffle(cand)
    bad = None
    for fl, line, s in cand[:60 if tier == 'quick' else 400]:
        w = line.split(); params = [int(x) for x in w[1:] if '=' not in x]
        if meta.get('interpreter_only', lambda e: False)(w[0]): continue
        e = exe(fl)
        if not e: break
        rc, out, cmd = ly.run_native(e, w[0], params, s['tape'], s['cpu'], soft='soft=1' in w)
        if rc == 10 and meta.get('ignore') and re.match(meta['ignore'], out[5:]): continue
        if rc == 0: valid += 1
        elif rc == 10 and not any(v[0] == 'new' for v in verdicts):
            # the compiled code fails where the encoding passes
            verdicts.append(('new', fl, line, {'msg': 'native run of a sampled input fails: ' + out, 'tape': s['tape'], 'cpu': s['cpu'], 'trace': []}, {'native': {'rc': rc, 'out': out, 'cmd': ' '.join("'%s'" % x for x in cmd)}}))
        else: notes.append('sample of "%s" ended with %s %s' % (line, rc, out[-100:]))
        if len(samples) < 6: samples.append({'job': '%s %s' % (fl, line), 'values': [x for _, x in s['tape']][:80], 'native': out[-80:]})
    done = [r for _, _, r in res if r]
    tot = lambda k: sum(r[k] for r in done)
    fns = sorted({f for r in done for f in r['functions']})
    import collections
    uns = collections.Counter()
    for r in done:
        for k, n in r['unsupported'].items(): uns[k] += n
    inc = ['%s %s' % (fl, l) for fl, l, r in res if r is None or r['budget'] or (r['undecided'] > 0) or any(not k.startswith('~') for k in r['unsupported'])]
    vac = sorted({l.split()[0] for _, l, r in res if r} - {l.split()[0] for _, l, r in res if r and (r['paths'] or r['violations'])})
    if vac: notes.append('no completed path in: ' + ', '.join(vac))
    own = [f for f in fns if re.search(r'4laby|laby_common|5itoap|2hx', f)]
    cov = {'states': tot('states'), 'transitions': tot('insts'), 'traces_validated_against_impl': valid, 'samples': samples or [{'note': 'no sample'}],
           'jobs': len(res), 'jobs_complete': len(res) - len(inc), 'incomplete_jobs': inc[:40], 'paths': tot('paths'), 'merged_states': tot('merged'), 'assertions_checked': tot('asserts'), 'memory_accesses_checked': tot('memchecks'),
           'branches_decided_by_domain': tot('domdec'), 'forks': tot('forks'), 'paths_confirmed_feasible_by_solver': tot('feasible'), 'solver_queries': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'queries_unknown': tot('solver_unknown'), 'solver_time_s': round(tot('solver_time'), 2), 'cpu_time_s': round(tot('wall'), 2),
           'outside_bounds': tot('outside'), 'unsupported': dict(uns), 'functions_encoded': len(fns), 'functions_of_the_repository_and_harness': [demangle(f) for f in own][:200],
           'bounds': meta.get('bounds', 'see DESIGN.md'), 'build_s': round(tb, 1), 'notes': notes[:20]}
    new = [v for v in verdicts if v[0] == 'new']
    write(cov, len(new), meta.get('assumptions', []) + ['rustc front end, the IR semantics in /verif/engine and z3 are trusted', 'bounds as listed in coverage.bounds; incomplete_jobs were cut by a time limit or an unsupported construct'])
    for n in notes: print('note:', n)
    print('%s %s: %d jobs (%d complete), %d paths, %d states, %d instructions, %d queries (%.1fs), %d native validations, %.1fs' % (pid, tier, len(res), len(res) - len(inc), cov['paths'], cov['states'], cov['transitions'], cov['solver_queries'], cov['solver_time_s'], valid, time.time() - t0))
    seen = set()
    for k in verdicts:
        if k[0] == 'known':
            key = (k[2].split()[0], k[3]['msg'])
            if key not in seen: print('KNOWN-FINDING: property=%s %s: %s' % (pid, k[2], k[3]['msg'])); seen.add(key)
    for i, (_, fl, line, v, how) in enumerate(new[:3]):
        rp = os.path.join(rdir, '%s-%d.json' % (pid, i))
        json.dump({'property': pid, 'flavour': fl, 'job': line, 'message': v['msg'], 'trace': v['trace'], 'values': v['tape'], 'cpu': v['cpu'], 'confirmed': how, 'interpret': '%s %s - - <<< "%s tape=%s%s"' % (ly.ENGINE, irs[fl], line, ly.tape_arg(v['tape']), ' cpuid=' + ly.cpu_arg(v['cpu']) if v['cpu'] else '')}, open(rp, 'w'), indent=1)
        print('violated: %s [%s %s]' % (v['msg'], fl, line))
        print('   native: %s' % how['native']['out'])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    return 1 if new else 0

def demangle(s):
    out = re.findall(r'(?<![0-9])(\d+)_?([A-Za-z_]\w*)', s)
    parts = []
    i = 0
    b = s
    while i < len(b):
        m = re.match(r'(\d+)', b[i:])
        if m and (i == 0 or not b[i - 1].isdigit()):
            n = int(m.group(1)); j = i + len(m.group(1))
            if j < len(b) and b[j] == '_': j += 1
            w = b[j:j + n]
            if 0 < n < 80 and len(w) == n and re.match(r'[A-Za-z_]\w*$', w): parts.append(w); i = j + n; continue
        i += 1
    return '::'.join(parts) or s

if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException: traceback.print_exc(); rc = 2
    sys.stdout.flush()
    os._exit(rc)
