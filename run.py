#!/usr/bin/env python3
"""Decide one property:  run.py C01 [--tier=quick|thorough] [--only=entry] [--keep]

Builds the harnesses of the property together with /repo's current sources into LLVM IR, explores every entry
symbolically (build/bsx), replays what it finds on natively compiled code, writes evidence/<id>.json."""
import sys, os, re, json, subprocess, time, glob, hashlib, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); R = os.environ.get('VP_REPO', '/repo'); B = V + '/build'
def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env); return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e: return 124, (e.stdout or b'').decode('utf8', 'replace')
def entries():
    out = []
    for f in sorted(glob.glob(V + '/harness/*.cpp')):
        flags = ''
        for l in open(f):
            if l.startswith('// FLAGS '): flags = l[9:].strip()
            if l.startswith('// ENTRY '):
                parts = [x.strip() for x in l[9:].split('|')]; e = {'name': parts[0], 'file': f, 'flags': flags, 'tier': 'quick', 'reach': [], 'opts': '', 'topts': None, 'bound': '', 'props': []}
                for p in parts[1:]:
                    k, _, v = p.partition('='); e[k.strip()] = v.strip()
                e['props'] = [x.strip() for x in e['props'].split(',')] if e['props'] else []
                e['reach'] = [x.strip() for x in e['reach'].split(';') if x.strip()] if isinstance(e['reach'], str) else []
                if 'flags' in e: pass
                out.append(e)
    return out
def known():
    p = V + '/known_findings.json'
    return json.load(open(p)).get('findings', []) if os.path.exists(p) else []
def main():
    t0 = time.time(); pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; outd = None
    for a in sys.argv[2:]:
        if a.startswith('--tier='): tier = a[7:]
        if a.startswith('--only='): only = a[7:]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if not os.path.exists(B + '/bsx') or not os.path.exists(B + '/env.bc'):
        rc, o = sh(['bash', V + '/build_env.sh'])
        if rc: print(o[-3000:]); print('ERROR: cannot build the engine'); return 2
    es = [e for e in entries() if pid in e['props'] and (tier == 'thorough' or e['tier'] == 'quick')]
    if only: es = [e for e in es if re.search(only, e['name'])]
    if not es: print('ERROR: no harness for', pid); return 2
    D = f'{B}/run-{pid}-{tier}-{os.getpid()}'; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    budget = 1500 if tier == 'thorough' else 420
    errors, mods, incomplete = [], {}, []
    for e in es:
        fl = e['flags'] + ' ' + e.get('cflags', ''); k = hashlib.md5((e['file'] + fl).encode()).hexdigest()[:8]
        e['mod'] = f"{D}/{os.path.basename(e['file'])[:-4]}.{k}.bc"; mods[e['mod']] = (e['file'], fl.split())
    ex = cf.ThreadPoolExecutor(8)
    def build(m): return m, sh(['bash', V + '/build.sh', mods[m][0], m] + mods[m][1], 300)
    for m, (rc, o) in ex.map(build, mods):
        if rc: errors.append(f'build of {m} failed: ' + o[-2500:])
    if errors: print('\n'.join(errors)); print('ERROR: harness does not build'); return 2
    def one(e):
        opts = e['opts'] if tier == 'quick' or e['topts'] is None else e['topts']
        if 'C40' not in e['props'] and '--race' not in opts: opts += ' --norace'
        opts = opts.replace('--race', '')
        if any(re.fullmatch(k['entry'], e['name']) for k in known()): opts += ' --nostop'
        od = f"{D}/{e['name']}.out"; os.makedirs(od, exist_ok=True)
        tl = int(e.get('time', budget))
        if tier == 'quick': tl = max(20, min(tl, int(780 - (time.time() - t0))))
        rc, o = sh(['bash', '-c', f"ulimit -v 16000000; exec {B}/bsx explore {e['mod']} --entry={e['name']} --out={od} --time={tl} {opts}"], tl + (60 if tier == 'quick' else 180))
        r = {'e': e, 'rc': rc, 'out': o, 'replays': []}
        jp = f"{od}/{e['name']}.json"
        if rc == 124: r['late'] = f"{e['name']}: stopped at the time limit"; return r
        if rc or not os.path.exists(jp): r['err'] = f"{e['name']}: engine exit {rc}: " + o[-800:]; return r
        r['j'] = j = json.load(open(jp)); marks = f"{od}/{e['name']}.marks"
        for v in j['violations']:
            rc2, o2 = sh(['bash', V + '/replay.sh', e['mod'] + '.d', e['name'], v['trace'], marks], 300); v['native'] = o2.strip()[-300:]
        for s in j['samples']:
            rc2, o2 = sh(['bash', V + '/replay.sh', e['mod'] + '.d', e['name'], s['trace'], marks], 300); s['native'] = o2.strip()[-300:]
        return r
    # long entries first
    es.sort(key=lambda e: -int(e.get('weight', '1')))
    res = list(ex.map(one, es))
    viol, kf, cov, samples, fns, asm, bounds = [], [], {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'merged_states': 0, 'entries': 0, 'queries': 0, 'unsat': 0, 'sat': 0, 'decided_by_cached_model': 0, 'solver_s': 0.0, 'assertions_checked': 0, 'instructions': 0, 'final_states': 0, 'cut_by_context_bound': 0, 'value_tuples': 0, 'unsat_claims': 0, 'unsat_claims_reproved_by_z3': 0}, [], set(), [], []
    per = []
    kn = [k for k in known() if k.get('property') == pid]
    for r in res:
        e = r['e']
        if 'err' in r: errors.append(r['err']); continue
        if 'late' in r: incomplete.append(r['late']); continue
        j = r['j']
        cov['entries'] += 1; cov['states'] += j['states']; cov['transitions'] += j['transitions']; cov['merged_states'] += j['merges']; cov['final_states'] += j['final_states']
        for a, b in (('queries', 'queries'), ('sat', 'sat'), ('unsat', 'unsat'), ('solver_s', 'solver_s'), ('assertions_checked', 'assertions'), ('instructions', 'instructions'), ('decided_by_cached_model', 'decided_by_model'), ('value_tuples', 'value_tuples'), ('unsat_claims', 'claims'), ('unsat_claims_reproved_by_z3', 'certified')): cov[a] += j[b]
        fns.update(j['functions']); bounds.append(f"{e['name']}: {e['bound']} {e['opts']} (longest schedule {j['levels']} steps)")
        trunc_ok = '--ctx' in r['e']['opts'] or '--ctx' in (e['topts'] or '') or '--max-level' in e['opts']
        if 'time limit' in r['out']: incomplete.append(f"{e['name']}: time limit reached before the bound")
        elif j['truncated'] and not trunc_ok: incomplete.append(f"{e['name']}: {j['truncated']} states beyond the step bound")
        cov['cut_by_context_bound'] += j['truncated']
        if j.get('race_candidates_unresolved'): bounds.append(f"{e['name']}: {j['race_candidates_unresolved']} race candidates not realisable in the explored order")
        for v in j['violations']:
            nat = v['native']; lab = v['label']; kind = lab.split(':')[0]
            rep = 'REPLAY-VIOLATION' in nat
            if kind in ('data race',) or lab.startswith('step bound'): ok = v['confirmed']
            else: ok = v['confirmed'] and rep
            tf = f"{V}/evidence/replay/{pid}.{e['name']}.{len(viol)}.trace"; 
            rec = {'entry': e['name'], 'label': lab, 'where': v['where'], 'native': nat, 'trace': tf, 'src': v['trace']}
            k = next((k for k in kn if re.fullmatch(k['entry'], e['name']) and re.search(k['match'], lab)), None)
            if k: kf.append((k, rec)); continue
            if not ok: errors.append(f"{e['name']}: '{lab}' found symbolically but not reproduced (engine {v['concrete']!r}, native {nat!r})"); continue
            viol.append(rec)
        for s in j['samples']:
            if 'REPLAY-OK' in s['native'] and s['ok']: cov['traces_validated_against_impl'] += 1
            elif 'REPLAY-END' in s['native'] and s['ok']: cov['traces_validated_against_impl'] += 1
            else: errors.append(f"{e['name']}: sample run does not match the native code: {s['native']!r} ok={s['ok']}")
            if len(samples) < 4:
                tr = [l.strip() for l in open(s['trace']) if l[0] in 'SN']; samples.append({'entry': e['name'], 'schedule': ' '.join(tr)[:600], 'native': s['native']})
        if not j['violations'] and not j['truncated'] or trunc_ok and not j['violations']:
            for l in e['reach']:
                if l not in j['reached']:
                    os.makedirs(V + '/evidence/replay', exist_ok=True); tf = f"{V}/evidence/replay/{pid}.{e['name']}.unreachable"; open(tf, 'w').write(f"entry {e['name']}: no execution within the bounds reaches: {l}\n{e['bound']}\n")
                    viol.append({'entry': e['name'], 'label': 'unreachable: ' + l, 'where': '', 'native': '', 'trace': tf, 'src': None})
        per.append({'entry': e['name'], 'states': j['states'], 'levels': j['levels'], 'threads': j['threads'], 'queries': j['queries'], 'solver_s': round(j['solver_s'], 2), 'wall_s': round(j['wall_s'], 2), 'witnesses_reached': j['reached'], 'passes': j['passes']})
    for v in viol:
        os.makedirs(V + '/evidence/replay', exist_ok=True)
        if v['src']:
            txt = open(v['src']).read(); open(v['trace'], 'w').write(f"# property {pid} entry {v['entry']}\n# {v['label']}\n# native replay: {v['native']}\n" + txt)
        print(f"  {v['entry']}: {v['label']}  [{v['where']}] native: {v['native']}")
        print(f"VIOLATION property={pid} replay={v['trace']}")
    seen = set()
    for k, rec in kf:
        if k['what'] in seen: continue
        seen.add(k['what']); print(f"KNOWN-FINDING: property={pid} {k['what']}")
    bf = sorted(f for f in fns if 'boost' in f)
    p = subprocess.run(['c++filt'], input='\n'.join(bf).encode(), stdout=subprocess.PIPE); names = [n[:160] for n in p.stdout.decode().split('\n') if n]
    names = [n for n in names if 'boost::' in n]
    cov['solver_s'] = round(cov['solver_s'], 3); cov['samples'] = samples or [{'none': 'violations found'}]; cov['per_entry'] = per; cov['bounds'] = bounds; cov['functions_encoded'] = len(names); cov['functions'] = names[:400]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'wall_s': round(time.time() - t0, 1), 'violations': len(viol), 'known_findings': [k['what'] for k, _ in kf], 'errors': errors, 'incomplete': incomplete,
          'assumptions': ['The POSIX thread, clock and allocation interface behaves as env/model.cpp describes (mutexes, condition variables with spurious wake-ups and time-outs where the entry enables them, keys, thread creation and exit).', 'Sequentially consistent interleavings; scheduling points at every blocking call, every non-reference-count atomic and every plain access the happens-before analysis could not order.', 'clang 18 -O1 IR of the current sources is what is executed; C++ run-time support is modelled in env/rt.cpp.', 'Bounds per entry as listed in coverage.bounds; anything larger is outside the claim.']}
    os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    if '--keep' not in sys.argv: shutil.rmtree(D, ignore_errors=True)
    for x in incomplete: print('INCOMPLETE:', x, '- the claim of this run excludes what lies beyond')
    for x in errors: print('ERROR:', x)
    slow = sorted(per, key=lambda p: -p['wall_s'])[:3]
    print(f"{pid} {tier}: {cov['entries']} entries, {cov['states']} states, {cov['queries']} queries ({cov['solver_s']} s solver), {cov['traces_validated_against_impl']} runs replayed natively, {len(viol)} violations, {len(errors)} errors, {time.time()-t0:.0f}s; slowest " + ', '.join(f"{p['entry']} {p['wall_s']}s" for p in slow))
    return 1 if viol else 2 if errors else 0
sys.exit(main())
