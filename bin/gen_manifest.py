#!/usr/bin/env python3
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import *
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in sorted(ALL, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='bash bin/setup.sh',
    checks=[dict(property=k, quick_cmd=f'python3 bin/check.py {k}', thorough_cmd=f'python3 bin/check.py {k} --tier thorough', technique='contract-based deductive verification (Verus) of functions extracted from /repo on every run',
        level='proof', level_note=(v['note'] + ' ' + ' '.join(v['assumptions'])).strip()) for k, v in sorted(PROPS.items())],
    not_applicable=[dict(property=k, reason=r) for k, r in sorted(NA.items())],
    notes='No hooks in /repo: the contracts live in /verif/units and are joined with the functions extracted from /repo on each run.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')

# ---- DESIGN.md
import glob, re
d = open(V + '/doc/design.md').read()
fx = [l.strip() for l in open(V + '/KNOWN_FINDINGS.txt') if l.startswith('fixed:')]
fixes = '\n'.join('* ' + re.sub(r'^fixed: property=(\S+) (\S+) (.*)$', r'**\1** (commit \2): \3', l) for l in fx)
out = []
for p in sorted(ALL, key=lambda p: p['id']):
    if p['id'] not in PROPS: continue
    v = PROPS[p['id']]; fns = []; lem = []
    seen = set()
    def grab(u):
        if u in seen: return
        seen.add(u); t = open(f'{V}/units/{u}').read()
        for i in re.findall(r'//@ include (\S+)', t):
            if os.path.exists(f'{V}/units/{i}') and (i.endswith('.inc.rs')): grab(i)
        fns.extend(m for m in re.findall(r"//@ fn ([^\s(]+)", t) if m not in fns)
        lem.extend(m for m in re.findall(r'proof fn (\w+)', t) if m not in lem)
    for u in v['units']: grab(u + '.rs')
    out.append(f"### {p['id']} {p['title']}\n{p['statement']}\n\n* **Decided by** {v['note']}\n* **Units** {', '.join(v['units'])}; functions under contract: {', '.join('`' + f + '`' for f in fns)}\n"
      + (f"* **Lemmas** {', '.join(l for l in lem)}\n" if lem else '') + f"* **Quantifies over** {p['quantifier']['text']}; no bound.\n* **Why tests cannot** {p['why_tests_cant']}\n* **Assumes** {' '.join(v['assumptions'])}\n")
na = '\n'.join(f"* **{p['id']} {p['title']}** {p['statement']} — *not applicable:* {NA[p['id']]}" for p in sorted(ALL, key=lambda p: p['id']) if p['id'] in NA) or 'None.'
seeds = '| id | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n'
res = json.load(open(V + '/doc/seeds.json')) if os.path.exists(V + '/doc/seeds.json') else {}
for s in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = s.split('/')[-2]; j = json.load(open(s))
    seeds += f"| {i} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {res.get(i, 'yes, with a failing input')} |\n"
for k, t in (('FIXES', fixes), ('PROPS', '\n'.join(out)), ('NA', na), ('SEEDS', seeds)): d = d.replace(f'@@{k}@@', t)
open(V + '/DESIGN.md', 'w').write(d)
