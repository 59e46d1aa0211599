#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
TECH = 'symbolic execution of the LLVM IR compiled from /repo (own engine), assertions decided by z3/cvc5 over all inputs within the bounds; counterexamples replayed natively'
P = []
def prop(id, title, stmt, qtext, why, files, mech, observe=None, over=('inputs',)):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a['observe_at'] = [observe]
    P.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why, anchors=a))
NA = []
exec(open(V + '/tools/table.py').read())
import jobs as J
with open(V + '/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
checks = []
for p in P:
    if p['id'] not in J.PROPS: continue
    b = J.PROPS[p['id']]
    checks.append(dict(property=p['id'], quick_cmd=f"python3 run.py {p['id']} quick", thorough_cmd=f"python3 run.py {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json", technique=TECH, level='model_checking',
        level_note=('Bounded: ' + b.bounds + '. Outside the bounds: ' + b.outside + '.')))
ids = {c['property'] for c in checks}; na = {n for n, _ in NA}
assert ids | na == {p['id'] for p in P}, (ids ^ {p['id'] for p in P}) - na
m = dict(version=1, setup_cmd='python3 run.py --build', checks=checks, not_applicable=[dict(property=n, reason=r) for n, r in NA],
    notes='No hooks in /repo: the harness crate in /verif/harness uses the public interface only. Fixes committed in /repo are listed in known_findings.json.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p, s)
for p in P: assert len(p['title']) <= 80, p['id']
print(len(P), 'properties', len(checks), 'checks')
# DESIGN.md: template + tables
def sec(p):
    if p['id'] not in J.PROPS: return ''
    b = J.PROPS[p['id']]; fns = {}
    for j in b.jobs: fns.setdefault((j.fn, j.contracts), []).append(j)
    L = [f"### {p['id']} — {p['title']}", p['statement'], '', f"*How:* {b.how}" if b.how else '', f"*Bounds:* {b.bounds}. *Outside:* {b.outside}.", '*Jobs:* ' + ', '.join(f"`{f}`" + (f" over `{c}` contracts" if c else '') + f" ×{len(js)}" for (f, c), js in fns.items()) + '.', f"*Beyond the tests because* {p['why_tests_cant']}."]
    return '\n'.join(x for x in L if x != '') + '\n'
kf = json.load(open(V + '/known_findings.json'))['findings']
fx = [f"* {f['property']} `{f['fixed']}`: {f['what']}" for f in kf if 'fixed' in f] + [f"* {f['property']} (recorded, not repaired): {f['what']}" for f in kf if 'fixed' not in f]
try: det = json.load(open(V + '/tools/detected.json'))
except FileNotFoundError: det = {}
pl = ['| bug | property | needs | caught by the quick check |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m_ = json.load(open(f'{V}/seeded/{d}/meta.json')); pl.append(f"| {d} | {m_['property']} | {m_['needs']} | {det.get(d, '?')} |")
t = open(V + '/tools/DESIGN.tmpl').read()
for k, v in (('PROPS', '\n'.join(sec(p) for p in P if p['id'] in J.PROPS)), ('NA', '\n'.join(f'* **{n}**: {r}' for n, r in NA) or 'None so far.'), ('FIXES', '\n'.join(fx)), ('PLANTS', '\n'.join(pl))): t = t.replace('@@%s@@' % k, v)
open(V + '/DESIGN.md', 'w').write(t)
