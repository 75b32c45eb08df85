#!/usr/bin/env python3
# MANIFEST.json from properties.jsonl, the harness directory and NOTE/NA below.
import json, glob, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = set()
for f in glob.glob(V + '/harness/*.cpp'):
    for l in open(f):
        m = re.match(r'// ENTRY .*\|\s*props=([^|]*)', l)
        if m: claimed.update(x.strip() for x in m.group(1).split(','))
NA = {}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
only = os.environ.get('ONLY')
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed and i not in NA:
        checks.append({'property': i, 'quick_cmd': f'python3 run.py {i}', 'thorough_cmd': f'python3 run.py {i} --tier=thorough', 'evidence_file': f'evidence/{i}.json',
            'technique': 'bounded symbolic execution of the LLVM IR of the real code over all schedules and inputs, decided by SAT/SMT',
            'level': 'model_checking',
            'level_note': 'Every schedule, input and fault choice within the per-entry bounds is a solver variable and every assertion, deadlock, memory and data-race condition is decided by the solver; the claim ends at those bounds (threads, operations, deadlines; listed in the evidence). Trusted: the POSIX/allocation model in env/, clang -O1 IR, sequential consistency plus happens-before race freedom, the engine. Violations are replayed on native code before they are reported and sample runs are replayed natively on every run.'})
    else: na.append({'property': i, 'reason': NA.get(i, 'No harness has been built for this property yet; nothing is claimed.')})
m = {'version': 1, 'setup_cmd': 'bash build_env.sh', 'checks': checks, 'not_applicable': na, 'notes': 'run.py builds the harnesses together with /repo/src and /repo/include, explores them with build/bsx and replays on native code; see DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'claimed', len(na), 'not')
