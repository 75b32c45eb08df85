#!/usr/bin/env python3
# fills the generated parts of DESIGN.md (between <!--X--> and <!--/X-->) from the harnesses, known_findings.json and seeded/
import json, glob, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kf = json.load(open(V + '/known_findings.json')); props = [json.loads(l) for l in open(V + '/properties.jsonl')]
ent = {}
for f in sorted(glob.glob(V + '/harness/*.cpp')):
    for l in open(f):
        if l.startswith('// ENTRY '):
            a = [x.strip() for x in l[9:].split('|')]; d = dict(x.split('=', 1) for x in a[1:] if '=' in x)
            for p in d['props'].split(','): ent.setdefault(p.strip(), []).append((a[0], d.get('tier', 'quick'), d.get('bound', ''), os.path.basename(f), d.get('opts', '')))
out = {}
out['FIXED'] = '\n'.join('* ' + re.sub(r'^fixed: property=(\S+) (\S+) ', r'\1 (`\2`): ', x) for x in kf['fixed'])
out['FINDINGS'] = '\n'.join(f"* {x['property']} (`{x['entry']}`): {x['what']}" for x in kf['findings'])
s = ''
for p in props:
    if p['id'] not in ent: continue
    s += f"\n### {p['id']} {p['title']}\n\n" + '\n'.join(f"* `{n}` ({f}{', thorough' if t == 'thorough' else ''}{', ' + o if o else ''}): {b}" for n, t, b, f, o in ent[p['id']]) + '\n'
out['ENTRIES'] = s
s = '| change | property | needs | caught by |\n|---|---|---|---|\n'
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m)); c = d.get('caught_by', d['property'])
    s += f"| {i}: {d['what_it_breaks']} | {d['property']} | {d['needs']} | {c} |\n"
out['SEEDS'] = s
t = open(V + '/DESIGN.md').read()
for k, v in out.items(): t = re.sub(r'<!--%s-->.*?<!--/%s-->' % (k, k), lambda m: f'<!--{k}-->\n{v}\n<!--/{k}-->', t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
