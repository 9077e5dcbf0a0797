"""Builds one replay harness per property run and searches failing inputs with it."""
import os, json
import harness as H
import speclib
from vspec import *

class R: pass

def make(tag, units, plain):
    r = R(); fns = []; items = []; seen = set()
    for u in units:
        for f in u.fns:
            if f.get('found') and f['id'] not in seen and f['file'].startswith('math/src/') and 'noreplay' not in H.meta(f): seen.add(f['id']); fns.append(f)
        items += [i for i in u.items]
    pl = {}
    for u in units:
        if not any(f.get('found') and not f.get('world') and not f['file'].startswith('math/src/') and 'noreplay' not in H.meta(f) for f in u.fns): continue
        info, err = plain(u)
        if info is None: continue
        out = os.path.join(u.dir, u.unit + '_plain.rs')
        pf = [f for f in info['functions'] if f['kind'] == 'fn' and f.get('found') and not f['errors'] and f['id'] not in seen and 'noreplay' not in H.meta(f)]
        for f in pf: f['orig'] = f['name']
        pi = [i for i in info['functions'] if i['kind'] in ('struct', 'enum', 'alias')]
        pre = ''.join(open(p).read() for p in (os.path.join(H.VERIF, 'units', 'frame.plain'), os.path.join(H.VERIF, 'units', u.unit + '.plain')) if os.path.exists(p))
        pl[u.unit] = (pre + open(out).read(), pf, pi)
        for f in u.fns:
            if f['id'] in {x['id'] for x in pf}: fns.append(f); seen.add(f['id'])
    h = H.Harness(tag, fns, items, pl)
    r.ok = h.build(); r.err = h.err
    r.h = h
    ids = {f['id'] for f in fns}
    r.covers = lambda f: f['id'] in ids
    specs = {}
    def search(u, f, seed, budget):
        if u.unit not in specs: 
            specs[u.unit] = Spec(open(u.out).read()); speclib.apply(specs[u.unit])
        return H.search(h, specs[u.unit], f, items, seed, budget)
    r.search = search
    return r
