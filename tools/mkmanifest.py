"""MANIFEST.json from the list of properties"""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import jobs
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {'C03': 'symbolic execution of the LLVM IR over all CPUID answers and all interleavings, SMT', 'C26': 'symbolic execution of the LLVM IR of both build profiles, SMT', 'C27': 'symbolic execution of the LLVM IR with unwinding at every chosen point, SMT'}
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    i = json.loads(l)['id']
    checks.append({'property': i, 'quick_cmd': './check.py %s quick' % i, 'thorough_cmd': './check.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
        'technique': T.get(i, 'symbolic execution of the LLVM IR rustc makes from the real code, SMT (z3)'), 'level': 'model_checking',
        'level_note': 'For all values within the bounds the solver finds no violating input; reports are replayed on the compiled code. Bounds: %s. Trusted: rustc front end, the engine\'s IR semantics, z3.' % jobs.META[i]['bounds']})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [], 'notes': 'No hooks in /repo are needed: the harness crate /verif/harness uses the public API. See DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
