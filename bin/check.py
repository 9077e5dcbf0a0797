#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property by contract-based deductive verification of /repo's current source:
  1. builds the extractor (vx) and extracts, from /repo's working tree, every function under contract of the
     property's units, joined with the contracts in /verif/units;
  2. runs Verus on every unit; every obligation must be discharged;
  3. an obligation that fails (also under other solver seeds and a larger budget) is replayed: the real code is
     run against the executable reading of the contract to find a failing input;
  4. a function the extractor or Verus cannot take (unsupported construct, lost anchor) is *undecided*, never an
     alarm: it falls back to a bounded check of the real code, labelled as such.
Exit 0: held. Exit 1: VIOLATION line. Exit 2: the check could not run."""
import sys, os, json, subprocess, time, re, fcntl, hashlib, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from concurrent.futures import ThreadPoolExecutor
from vspec import *
import harness as H
from props import PROPS

VERIF = H.VERIF; REPO = H.REPO
BUILD = H.BUILD
VX = os.path.join(VERIF, 'vx', 'target', 'release', 'vx')
SEEDS = [0, 7, 23]

def log(*a): print(*a, flush=True)

def build_vx():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'vx.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ, RUSTUP_TOOLCHAIN='1.75.0'); env.pop('CARGO_TARGET_DIR', None)
        r = subprocess.run(['cargo', 'build', '--release', '--offline', '-q'], cwd=os.path.join(VERIF, 'vx'), env=env, capture_output=True, text=True)
        if r.returncode != 0:
            log(r.stderr[-3000:]); log('ERROR: extractor does not build'); sys.exit(2)

def extract(unit, out, stubs=(), extra=()):
    cmd = [VX, '--repo', REPO, '--unit', os.path.join(VERIF, 'units', unit + '.rs'), '--out', out] + list(extra)
    if stubs: cmd += ['--stub', ','.join(sorted(stubs))]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0: return None, r.stderr.strip()
    return json.loads(r.stdout), ''

def verus(path, *args, timeout=700):
    t0 = time.time()
    cmd = ['verus', path, '--error-format=json', '--output-json', '--time-expanded', '--multiple-errors', '4'] + list(args)
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return dict(stage='timeout', diags=[], cmd=' '.join(cmd), wall=time.time() - t0)
    try: j = json.loads(r.stdout)
    except ValueError: j = {}
    diags = []
    for l in r.stderr.split('\n'):
        if l.startswith('{'):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') == 'error' and not d['message'].startswith('aborting'): diags.append(d)
    vr = j.get('verification-results', {})
    res = dict(j=j, diags=diags, cmd=' '.join(cmd), wall=time.time() - t0, verified=vr.get('verified', 0), errors=vr.get('errors', 0), rc=r.returncode, stderr=r.stderr[-4000:])
    fb = []
    for m in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []): fb.append((f['function'].split('::', 1)[-1], f.get('mode:', ''), f['time-micros'] / 1e6, f.get('success')))
    res['fns'] = fb
    if r.returncode == 0 and vr.get('success') and not diags: res['stage'] = 'ok'
    elif res['verified'] + res['errors'] > 0 and not vr.get('encountered-vir-error'): res['stage'] = 'failed'
    else: res['stage'] = 'compile'
    return res

def verus_some(path, names, *args, timeout=700):
    """the named functions only, side by side; None when that is not possible"""
    if '?' in names or not 0 < len(names) <= 4: return None
    with ThreadPoolExecutor(max_workers=4) as ex:
        rs = list(ex.map(lambda n: verus(path, *args, '--verify-root', '--verify-function', '*' + n, timeout=timeout), names))
    if any(r['stage'] not in ('ok', 'failed') or r['verified'] + r['errors'] == 0 for r in rs): return None
    m = dict(rs[0]); m.update(diags=[d for r in rs for d in r['diags']], wall=max(r['wall'] for r in rs), verified=sum(r['verified'] for r in rs), errors=sum(r['errors'] for r in rs), fns=[x for r in rs for x in r['fns']],
        stage='ok' if all(r['stage'] == 'ok' for r in rs) else 'failed', partial=True)
    return m

FN_RE = re.compile(r'\bfn\s+(\w+)')
def locate(diags, ranges, lines):
    """diagnostic -> names of the extracted functions or lemmas it belongs to"""
    out = []
    for d in diags:
        spans = [s for s in d.get('spans', [])]
        hit = None; prim = [s for s in spans if s.get('is_primary')] or spans
        for s in prim + spans:
            for fid, (a, b) in ranges.items():
                if a <= s['line_start'] <= b: hit = ('fn', fid); break
            if hit: break
        # obligations of a lemma: nearest preceding `fn name` outside the extracted ranges
        if prim:
            ln = prim[0]['line_start']
            inside = any(a <= ln <= b for a, b in ranges.values())
            if not inside or hit is None:
                if not inside and d['message'].startswith(('postcondition', 'failed', 'assert', 'requires', 'decreases', 'loop', 'invariant', 'precond', 'Resource', 'possible', 'unable', 'recommend', 'function body', 'while', 'rlimit')) or hit is None:
                    # a postcondition's primary span may be the clause inside the callee: prefer secondary spans in ranges
                    sec = [s for s in spans if any(a <= s['line_start'] <= b for a, b in ranges.values())]
                    if hit is None or not sec:
                        for k in range(min(ln, len(lines)) - 1, -1, -1):
                            m = FN_RE.search(lines[k])
                            if m: hit = ('lemma', m.group(1)); break
        out.append((hit, d))
    return out

class UnitRun:
    def __init__(self, unit, tier, tag):
        self.unit = unit; self.tier = tier
        self.dir = os.path.join(BUILD, 'u_' + tag); os.makedirs(self.dir, exist_ok=True)
        self.out = os.path.join(self.dir, unit + '.rs')
        self.undecided = {}   # fn id -> reason
        self.failed = {}      # fn id -> diagnostics text
        self.lemma_failed = {}
        self.fatal = None; self.broken = False; self.notes = []; self.runs = []
    def go(self):
        stubs = set()
        for attempt in range(6):
            self.info, err = extract(self.unit, self.out, stubs)
            if self.info is None: self.fatal = 'extraction: ' + err; return self
            self.fns = [f for f in self.info['functions'] if f['kind'] == 'fn']
            self.items = [f for f in self.info['functions'] if f['kind'] in ('struct', 'enum', 'alias')]
            lost = [f for f in self.info['functions'] if f['kind'] == 'item']
            for f in lost: self.notes.append(f'type not found: {f["path"]}')
            for f in self.fns:
                f['orig'] = f['path'].split('::')[-1]
                if f.get('errors') and f['id'] not in self.undecided: self.undecided[f['id']] = ('lost anchor: ' if not f['found'] else 'outside the verifier\'s reach: ') + '; '.join(f['errors'])[:600]
            lines = open(self.out).read().split('\n')
            r = verus(self.out, '--rlimit', '40')
            self.runs.append(r)
            if r['stage'] in ('ok', 'failed', 'timeout'): break
            new = set()
            for hit, d in locate(r['diags'], self.info['ranges'], lines):
                for s in d.get('spans', []):
                    for fid, (a, b) in self.info['ranges'].items():
                        if a <= s['line_start'] <= b and fid not in stubs:
                            new.add(fid); self.undecided.setdefault(fid, 'not accepted by the verifier: ' + d['message'][:300])
            if not new:
                self.fatal = 'unit does not compile: ' + ' | '.join(d['message'][:300] for d in r['diags'][:3]) + (r['stderr'][-600:] if not r['diags'] else ''); return self
            stubs |= new
        self.stubs = stubs
        if r['stage'] == 'compile': self.fatal = 'unit does not compile'; return self
        if r['stage'] == 'timeout':
            for f in self.fns: self.undecided.setdefault(f['id'], 'verifier timeout')
            return self
        if r['stage'] == 'failed':
            fails = self.collect(r, lines)
            for (kind, name), txt in fails.items():
                if kind == 'fn': self.failed[name] = txt
                else: self.lemma_failed[name] = txt
            for f in self.fns:
                # invariants are tied to the loops in order: with loops merged, split or removed a failure says nothing
                if f['id'] in self.failed and f.get('loops') != f.get('annot'):
                    self.undecided[f['id']] = f'its loops were rearranged ({f["annot"]} under contract, {f["loops"]} found): their invariants no longer apply'
                    del self.failed[f['id']]
            self.commuted()
        self.verified = max(x.get('verified', 0) for x in self.runs)
        self.obl = max(x.get('verified', 0) + x.get('errors', 0) for x in self.runs)
        return self
    def failed_names(self): return [f['name'] for f in self.fns if f['id'] in self.failed] + list(self.lemma_failed)
    def retry(self):
        """a failed obligation counts only when it also fails under other solver seeds and a larger budget"""
        if getattr(self, 'retried', False) or not (self.failed or self.lemma_failed): return
        self.retried = True
        lines = open(self.out).read().split('\n')
        for seed in SEEDS[1:]:
            if not (self.failed or self.lemma_failed): break
            opts = ('--rlimit', '120', '--smt-option', f'smt.random_seed={seed}')
            r2 = verus_some(self.out, self.failed_names(), *opts, timeout=240) or verus(self.out, *opts, timeout=240)
            self.runs.append(r2)
            if r2['stage'] not in ('ok', 'failed'): continue
            f2 = self.collect(r2, lines) if r2['stage'] == 'failed' else {}
            for d, kind in ((self.failed, 'fn'), (self.lemma_failed, 'lemma')):
                for n in [n for n in d if (kind, n) not in f2]:
                    self.notes.append(f'{n}: discharged with seed {seed} and rlimit 120'); del d[n]
        self.verified = max(x.get('verified', 0) for x in self.runs)
    def commuted(self):
        """first retry: products are uninterpreted to the solver; the same proof with their commutativity at hand,
        so that swapping the factors of a product is no failure"""
        if not self.failed or self.undecided: return
        out = os.path.join(self.dir, self.unit + '_comm.rs')
        info, err = extract(self.unit, out, self.stubs, ('--comm', ','.join(self.failed)))
        if info is None: return
        r = verus_some(out, self.failed_names(), '--rlimit', '60', timeout=150) or verus(out, '--rlimit', '60', timeout=150)
        if r['stage'] not in ('ok', 'failed'): return
        f2 = {}
        for hit, d in locate(r['diags'], info['ranges'], open(out).read().split('\n')): f2[hit or ('lemma', '?')] = 1
        for n in [n for n in self.failed if ('fn', n) not in f2]:
            if ('lemma', '?') in f2: break
            self.runs.append(r); self.notes.append(f'{n}: discharged with commutativity of products'); del self.failed[n]
        self.verified = max(x.get('verified', 0) for x in self.runs)
    def collect(self, r, lines):
        f = {}
        for hit, d in locate(r['diags'], self.info['ranges'], lines):
            if hit is None: hit = ('lemma', '?')
            t = d.get('rendered') or d['message']
            f.setdefault(hit, '')
            if t not in f[hit]: f[hit] += t + '\n'
        if not f and r['errors']: f[('lemma', '?')] = r['stderr']
        return f
    def probes(self):
        """vacuity: with only `requires` assumed, `false` must not follow"""
        text = open(self.out).read()
        ps = []
        grp = 'vxf' if 'broadcast group vxf' in text else 'vx'
        for f in self.fns:
            if not f.get('found') or f.get('world') or f['id'] in self.undecided: continue
            if not f['requires'].strip() or 'old(' in f['requires'] or f['generics'].strip(): continue
            pl = []
            for n, ty in f['params']:
                if n == 'self': pl = None; break
                pl.append(f'{n}: {ty.replace("& mut", "&")}')
            if pl is None: continue
            ps.append(f'proof fn vxprobe_{len(ps)}({", ".join(pl)}) requires {f["requires"].rstrip().rstrip(",")}, ensures false {{ broadcast use {grp}; }}')
        ps.append(f'proof fn vxprobe_axioms() ensures false {{ broadcast use {grp}; }}')
        i = text.rindex('}\nfn main')
        pf = os.path.join(self.dir, self.unit + '_probe.rs')
        open(pf, 'w').write(text[:i] + '\n'.join(ps) + '\n' + text[i:])
        r = verus(pf, '--verify-root', '--verify-function', '*vxprobe*')
        if r['stage'] == 'compile': return len(ps), None, r['diags'][0]['message'] if r['diags'] else r['stderr'][-400:]
        return len(ps), r['errors'], ''

def main():
    prop = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    tier = 'thorough' if tier == 'thorough' or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = PROPS[prop]
    t0 = time.time()
    build_vx()
    units = cfg['units']
    with ThreadPoolExecutor(max_workers=6) as ex:
        runs = list(ex.map(lambda u: UnitRun(u, tier, prop).go(), units))
        for u in runs:
            # the unit as a whole is out of reach (e.g. a construct outside every extracted range): nothing is decided
            # deductively, every function falls back to its bounded check
            if u.fatal and getattr(u, 'info', None):
                u.notes.append('nothing decided deductively: ' + u.fatal[:800]); u.broken = True
                for f in u.fns: u.undecided.setdefault(f['id'], 'the unit is not accepted by the verifier')
                u.fatal = None; u.verified = u.obl = 0
        ok = [u for u in runs if not u.fatal]
        probes = list(ex.map(lambda u: (0, 0, '') if u.broken else u.probes(), ok))
    assumptions = list(cfg.get('assumptions', []))
    notes = []; violations = []; bounded = []; errors = []
    for u in runs:
        if u.fatal: errors.append(f'{u.unit}: {u.fatal}')
    nprobe = 0
    for u, (n, bad, msg) in zip(ok, probes):
        nprobe += n
        if bad is None: errors.append(f'{u.unit}: vacuity probes do not compile: {msg}')
        elif bad != n: errors.append(f'{u.unit}: {n - bad} vacuity probe(s) proved false: contradictory precondition or axiom')
        if u.obl == 0 and not u.broken: errors.append(f'{u.unit}: no obligations')
    hz = None; hstats = {}
    need = []
    for u in ok:
        for f in u.fns:
            if f['id'] in u.failed or f['id'] in u.undecided or (tier == 'thorough' and f.get('found')): need.append((u, f))
        # a helper without its own contract that stops a caller: the caller is in `failed` already
    deadline = t0 + (560 if tier == 'quick' else 850)
    H_ok = False
    def callable_(f): return not f.get('world') and 'noreplay' not in str(f.get('meta'))
    if any(callable_(f) for _, f in need) or any(u.lemma_failed for u in ok):
        import replay
        hz = replay.make(prop, ok, lambda u: extract(u.unit, os.path.join(u.dir, u.unit + '_plain.rs'), (), ('--plain',)))
        H_ok = hz.ok
        if not H_ok: notes.append('replay harness did not build: ' + (hz.err or '')[:600])
    nfail = sum(1 for u, f in need if f['id'] in u.failed or f['id'] in u.undecided)
    results = {}
    def srch(uf):
        u, f = uf
        if not f.get('found') or not H_ok or not hz.covers(f): return None
        hot = f['id'] in u.failed or f['id'] in u.undecided
        b = (150 if f['id'] in u.failed or 'loops were rearranged' in u.undecided.get(f['id'], '') else 60) if tier == 'quick' else (300 if hot else 60)
        b = max(10, min(b, deadline - time.time()))
        try: return hz.search(u, f, seed, b)
        except Exception as e: notes.append(f'{f["id"]}: input search failed: {e!r}'); return None
    with ThreadPoolExecutor(max_workers=4) as ex:
        for uf, r in zip(need, ex.map(srch, need)): results[uf[1]['id']] = r
    # a failing or undecided function that cannot be called from outside, or shows nothing itself: look at its neighbours under contract
    def hit(i): return bool((results.get(i) or (None,))[0])
    # (calls of a pallet are not run by the harness, and nothing outside them calls them: then there is nothing to look for)
    extra = [(u, f) for u in ok for f in u.fns if f.get('found') and f['id'] not in results and any(not hit(g['id']) for g in u.fns if (g['id'] in u.failed or g['id'] in u.undecided) and callable_(g))]
    if extra and H_ok:
        def srch2(uf):
            if any(hit(i) for i in list(uf[0].failed)) or not hz.covers(uf[1]): return None
            try: return hz.search(uf[0], uf[1], seed, max(10, min(60, deadline - time.time())))
            except Exception as e: return None
        with ThreadPoolExecutor(max_workers=4) as ex:
            for uf, r in zip(extra, ex.map(srch2, extra)):
                results[uf[1]['id']] = r
                if r and r[0]: need.append(uf)
    # failures without an input: believed only when they survive other seeds and a larger budget
    for u in ok:
        if u.lemma_failed or any(not (results.get(i) or (None,))[0] for i in u.failed): u.retry()
    for u in runs: notes += [f'{u.unit}: {n}' for n in u.notes]
    # every obligation has been discharged by one run or another
    for u in ok:
        if not (u.failed or u.lemma_failed or u.undecided or u.broken): u.verified = u.obl
    rdir = os.path.join(BUILD, 'replay'); os.makedirs(rdir, exist_ok=True)
    def write_replay(name, body):
        p = os.path.join(rdir, f'{prop}_{re.sub(r"[^A-Za-z0-9]+", "_", name)[-80:]}.txt')
        open(p, 'w').write(body); return p
    samples = []
    for u, f in need:
        r = results.get(f['id'])
        fail, st = r if r else (None, {})
        if st: hstats[f['id']] = {k: v for k, v in st.items() if k != 'samples'}; samples += st.get('samples', [])
        if f['id'] in u.failed:
            body = f'property {prop}\nfailed obligation in {f["path"]} ({f["file"]}:{f["line"]})\nverifier: {u.runs[0]["cmd"]}\n\n{u.failed[f["id"]]}\n'
            if fail:
                p = write_replay(f['id'], body + f'\nfailing input (run on the real code): {fail["input"]!r}\noutcome: {fail["outcome"]}\nviolated clause: {fail["clause"]}\n')
                violations.append((p, True, f['path']))
            else:
                lost = [x for x in u.undecided]
                if lost:
                    bounded.append(dict(function=f['path'], reason='proof depends on functions that could not be extracted: ' + ', '.join(lost), bound=st))
                else:
                    p = write_replay(f['id'], body + f'\nno failing input found: {st}\n')
                    violations.append((p, False, f['path']))
        elif fail:
            body = f'property {prop}\n{f["path"]} contradicts its contract on a concrete input\n' + (f'(not decided deductively: {u.undecided[f["id"]]})\n' if f['id'] in u.undecided else ('(a function it relies on fails its own contract)\n' if u.failed or u.undecided else '(the proof went through: an assumed dependency contract is wrong)\n'))
            p = write_replay(f['id'], body + f'\nfailing input (run on the real code): {fail["input"]!r}\noutcome: {fail["outcome"]}\nviolated clause: {fail["clause"]}\n')
            violations.append((p, True, f['path']))
        elif f['id'] in u.undecided:
            bounded.append(dict(function=f['path'], reason=u.undecided[f['id']], bound={k: v for k, v in st.items() if k != 'samples'} if st else 'none'))
    for u in ok:
        for n, txt in u.lemma_failed.items():
            p = write_replay('lemma_' + n, f'property {prop}\nfailed lemma {n} in unit {u.unit}\n\n{txt}\n')
            violations.append((p, False, f'lemma {n}'))
    for u in ok:
        if u.broken and not any((results.get(f['id']) or (None, {}))[1].get('accepted') for f in u.fns): errors.append(f'{u.unit}: nothing could be decided or explored')
    # ---- known findings
    known = []
    kf = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'property=(\S+) finding=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop: known.append((m.group(2), m.group(3)))
    # ---- evidence
    contract = []; discharged_fns = 0
    for u in ok:
        for f in u.fns:
            st = 'discharged'
            if f['id'] in u.undecided: st = 'bounded stand-in'
            elif f['id'] in u.failed: st = 'FAILED'
            if st == 'discharged': discharged_fns += 1
            contract.append(f'{f["path"]} [{st}]' + (f' rewrites: {", ".join(f["notes"])}' if f.get('notes') else ''))
    txt = ''.join(open(u.out).read() for u in ok)
    trusted = sorted(set(re.findall(r'axiom fn (\w+)', txt)))
    ext = len(re.findall(r'external_body', txt)); assume_spec = sorted(set(re.findall(r'assume_specification[^\[]*\[\s*([^\]]+?)\s*\]', txt)))
    admits = re.findall(r'\b(?:assume|admit)\s*\(', re.sub(r'//[^\n]*', '', txt))
    slow = sorted(((t, n) for u in ok for r in u.runs[:1] for n, _, t, _ in r.get('fns', [])), reverse=True)[:5]
    obl = sum(u.obl for u in ok); ver = sum(u.verified for u in ok)
    cov = dict(obligations=obl, discharged=ver,
        checker_cmd='; '.join(u.runs[-1]['cmd'] for u in ok if u.runs),
        trusted_base=[f'Verus 0.2026.09.13 + Z3', f'extractor /verif/vx (mechanical; rewrites listed per function)', f'axioms: {", ".join(trusted)}',
                      f'{ext} external_body contracts on dependencies (primitive-types, sp-arithmetic, std): see units/prelude*.rs', f'assume_specification: {", ".join(assume_spec)}'],
        functions_under_contract=contract, functions_discharged=discharged_fns, lemmas=sorted({n for u in ok for r in u.runs[:1] for n, m, _, s in r.get('fns', []) if m == 'proof' and s}),
        assume_or_admit_statements=len(admits), vacuity_probes=nprobe, backend='Z3 via Verus',
        solver_seconds=round(sum(r.get('j', {}).get('times-ms', {}).get('smt', {}).get('total', 0) for u in ok for r in u.runs) / 1000, 2),
        verifier_seconds=round(sum(r['wall'] for u in ok for r in u.runs), 2), slowest=[f'{n} {t:.2f}s' for t, n in slow],
        bounded=bounded, notes=notes, conformance_runs=hstats, samples=samples[:6], errors=errors)
    if not cov['trusted_base']: cov['trusted_base'] = ['none']
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level=cfg.get('level', 'proof'), coverage=cov, assumptions=assumptions, violations=len(violations), wall_s=round(time.time() - t0, 1)),
              open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    log(f'{prop}: {ver}/{obl} obligations discharged, {discharged_fns} functions under contract, {len(bounded)} bounded, {time.time()-t0:.0f}s')
    for n in notes: log('note:', n)
    for b in bounded: log('BOUNDED:', b['function'], '-', b['reason'][:400], '-', b['bound'])
    for fid, msg in known: log(f'KNOWN-FINDING: property={prop} {msg}')
    if violations:
        # the one with a failing input first
        violations.sort(key=lambda v: not v[1])
        for p, has, name in violations: log(f'  failed: {name} {"(failing input found)" if has else ""}')
        p, has, name = violations[0]
        log(f'VIOLATION property={prop} replay={p}' + ('' if has else ' no-failing-input-found'))
        sys.exit(1)
    if errors:
        for e in errors: log('ERROR:', e)
        sys.exit(2)
    sys.exit(0)

if __name__ == '__main__':
    try: main()
    except Exception:
        import traceback
        traceback.print_exc(); log('ERROR: the check itself failed'); sys.exit(2)
