"""Replay harness: compiles the real sources of /repo (math crate copied as is, pallet functions extracted
mechanically) into a crate that calls any function under contract on concrete inputs read from stdin.
Used for replaying a failed obligation, for bounded stand-ins and for validating the assumed contracts."""
import os, re, shutil, subprocess, tempfile, fcntl, random, time, json
from vspec import *

VERIF = os.environ.get('VX_VERIF', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VX_REPO', '/repo')
BUILD = os.environ.get('VX_BUILD', os.path.join(VERIF, 'build'))

SUPPORT = r'''
#![allow(unused)]
pub struct Tok { pub t: Vec<String> }
impl Tok {
    pub fn new(s: &str) -> Tok { let mut t: Vec<String> = s.split_whitespace().map(String::from).collect(); t.reverse(); Tok { t } }
    pub fn next(&mut self) -> String { self.t.pop().expect("harness: token") }
    pub fn peek(&self) -> &str { self.t.last().expect("harness: token") }
    pub fn eat(&mut self, s: &str) { let n = self.next(); assert!(n == s, "harness: expected {} got {}", s, n); }
}
pub trait VxA: Sized { fn p(t: &mut Tok) -> Self; }
pub trait VxO { fn o(&self, s: &mut String); }
macro_rules! ints { ($($t:ty),*) => { $(impl VxA for $t { fn p(t: &mut Tok) -> Self { t.next().parse().expect("harness: int") } } impl VxO for $t { fn o(&self, s: &mut String) { s.push_str(&self.to_string()); s.push(' '); } })* } }
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128);
impl VxA for bool { fn p(t: &mut Tok) -> Self { t.next() == "T" } }
impl VxO for bool { fn o(&self, s: &mut String) { s.push_str(if *self { "T " } else { "F " }); } }
impl VxA for () { fn p(t: &mut Tok) -> Self { t.eat("("); t.eat("t"); t.eat(")"); } }
impl VxO for () { fn o(&self, s: &mut String) { s.push_str("( t ) "); } }
impl<T: VxO + ?Sized> VxO for &T { fn o(&self, s: &mut String) { (**self).o(s) } }
impl<T: VxO + ?Sized> VxO for &mut T { fn o(&self, s: &mut String) { (**self).o(s) } }
impl<T: VxA> VxA for Vec<T> { fn p(t: &mut Tok) -> Self { t.eat("("); t.eat("l"); let mut v = vec![]; while t.peek() != ")" { v.push(T::p(t)); } t.next(); v } }
impl<T: VxO> VxO for Vec<T> { fn o(&self, s: &mut String) { self[..].o(s) } }
impl<T: VxO> VxO for [T] { fn o(&self, s: &mut String) { s.push_str("( l "); for x in self { x.o(s); } s.push_str(") "); } }
impl<T: VxO, const N: usize> VxO for [T; N] { fn o(&self, s: &mut String) { self[..].o(s) } }
impl<T: VxA, const N: usize> VxA for [T; N] { fn p(t: &mut Tok) -> Self { let v: Vec<T> = VxA::p(t); v.try_into().ok().expect("harness: array") } }
impl<T: VxA + 'static> VxA for &'static T { fn p(t: &mut Tok) -> Self { Box::leak(Box::new(T::p(t))) } }
impl<T: VxA> VxA for Option<T> { fn p(t: &mut Tok) -> Self { t.eat("("); t.eat("v"); let r = if t.next() == "Some" { Some(T::p(t)) } else { None }; t.eat(")"); r } }
impl<T: VxO> VxO for Option<T> { fn o(&self, s: &mut String) { match self { Some(x) => { s.push_str("( v Some "); x.o(s); s.push_str(") ") } None => s.push_str("( v None ) ") } } }
impl<T: VxO, E: VxO> VxO for Result<T, E> { fn o(&self, s: &mut String) { match self { Ok(x) => { s.push_str("( v Ok "); x.o(s); s.push_str(") ") } Err(x) => { s.push_str("( v Err "); x.o(s); s.push_str(") ") } } } }
macro_rules! tup { ($($n:ident $i:tt),+) => { impl<$($n: VxA),+> VxA for ($($n,)+) { fn p(t: &mut Tok) -> Self { t.eat("("); t.eat("t"); let r = ($($n::p(t),)+); t.eat(")"); r } } impl<$($n: VxO),+> VxO for ($($n,)+) { fn o(&self, s: &mut String) { s.push_str("( t "); $(self.$i.o(s);)+ s.push_str(") "); } } } }
tup!(A 0); tup!(A 0, B 1); tup!(A 0, B 1, C 2); tup!(A 0, B 1, C 2, D 3); tup!(A 0, B 1, C 2, D 3, E 4);
macro_rules! big { ($($t:ty),*) => { $(impl VxA for $t { fn p(t: &mut Tok) -> Self { <$t>::from_dec_str(&t.next()).expect("harness: big") } } impl VxO for $t { fn o(&self, s: &mut String) { s.push_str(&format!("{} ", self)); } })* } }
big!(primitive_types::U256, primitive_types::U512, primitive_types::U128);
impl VxA for sp_arithmetic::FixedU128 { fn p(t: &mut Tok) -> Self { sp_arithmetic::FixedU128::from_inner(t.next().parse().unwrap()) } }
impl VxO for sp_arithmetic::FixedU128 { fn o(&self, s: &mut String) { s.push_str(&format!("{} ", self.into_inner())); } }
macro_rules! per { ($($t:ty),*) => { $(impl VxA for $t { fn p(t: &mut Tok) -> Self { <$t>::from_parts(t.next().parse().unwrap()) } } impl VxO for $t { fn o(&self, s: &mut String) { s.push_str(&format!("{} ", self.deconstruct())); } })* } }
per!(sp_arithmetic::Permill, sp_arithmetic::Perbill, sp_arithmetic::Percent, sp_arithmetic::Perquintill);
impl VxO for primitive_types::H160 { fn o(&self, s: &mut String) { self.0[..].o(s) } }
impl VxA for primitive_types::H160 { fn p(t: &mut Tok) -> Self { primitive_types::H160(VxA::p(t)) } }
macro_rules! fixp { ($($t:ty),*) => { $(impl VxA for $t { fn p(t: &mut Tok) -> Self { <$t>::from_bits(t.next().parse().unwrap()) } } impl VxO for $t { fn o(&self, s: &mut String) { s.push_str(&format!("{} ", self.to_bits())); } })* } }
fixp!(fixed::types::U1F127, fixed::types::U2F126, fixed::types::U32F96);
impl VxA for sp_arithmetic::per_things::Rounding { fn p(t: &mut Tok) -> Self { use sp_arithmetic::per_things::Rounding::*; t.eat("("); t.eat("v"); let r = match t.next().as_str() { "Up" => Up, "Down" => Down, "NearestPrefUp" => NearestPrefUp, _ => NearestPrefDown }; t.eat(")"); r } }
impl VxA for core::num::NonZeroU128 { fn p(t: &mut Tok) -> Self { core::num::NonZeroU128::new(t.next().parse().unwrap()).unwrap() } }
impl VxO for core::cmp::Ordering { fn o(&self, s: &mut String) { s.push_str(&format!("( v {:?} ) ", self)); } }
impl VxO for str { fn o(&self, s: &mut String) { s.push_str("( v Str ) "); } }
'''

MAIN = r'''
use std::io::{BufRead, Write};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = out.lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let r = std::panic::catch_unwind(|| {
            let mut t = vxharness::__vx::Tok::new(&line);
            let id = t.next();
            vxharness::__vx_dispatch(&id, &mut t)
        });
        let s = match r { Ok(Some(s)) => s, Ok(None) => "NOFN".into(), Err(e) => { let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); format!("PANIC {}", m.replace('\n', " ")) } };
        writeln!(out, "{}", s).unwrap();
        out.flush().unwrap();
    }
}
'''

CARGO = '''[package]
name = "vxharness"
version = "0.0.0"
edition = "2021"
[workspace]
[lib]
name = "vxharness"
path = "src/lib.rs"
[[bin]]
name = "replay"
path = "src/bin/replay.rs"
[dependencies]
primitive-types = {{ default-features = false, version = '0.12.0' }}
num-traits = {{ default-features = false, version = "0.2.14" }}
fixed = {{ version = "=1.15.0", features = ["num-traits"] }}
codec = {{ package = "parity-scale-codec", version = "3.4.0", default-features = false, features = ["derive", "max-encoded-len"] }}
scale-info = {{ version = "2.1.1", default-features = false, features = ["derive"] }}
serde = {{ version = "1.0.136", default-features = false, features = ["derive", "std"] }}
sp-arithmetic = {{ path = "{V}/shims/sp-arithmetic" }}
sp-std = {{ path = "{V}/shims/sp-std" }}
[features]
default = ["std"]
std = []
[profile.release]
overflow-checks = true
debug-assertions = false
opt-level = 2
'''

def key(f): return re.sub(r'[^A-Za-z0-9]+', '_', f['id'])

def arg_expr(ty):
    ty = ty.strip()
    if ty.startswith('&'):
        r = ty[1:].strip()
        r = re.sub(r"^'\w+\s*", '', r)
        mut = r.startswith('mut ')
        if mut: r = r[4:].strip()
        if r.startswith('['): return '<Vec<_> as crate::__vx::VxA>::p(t)', '&mut ' if mut else '&'
        return 'crate::__vx::VxA::p(t)', '&mut ' if mut else '&'
    return 'crate::__vx::VxA::p(t)', ''

def item_impl(it):
    n = it['name']; g = it.get('generics', [])
    def hdr(tr): return f"impl{('<' + ', '.join(x + ': crate::__vx::' + tr for x in g) + '>') if g else ''} crate::__vx::{tr} for {n}{('<' + ', '.join(g) + '>') if g else ''}{(' where ' + it['where']) if it.get('where') else ''}"
    P = 'crate::__vx::VxA::p(t)'
    if it['kind'] == 'struct':
        fs = it['fields']
        if fs and fs[0].isdigit():
            a = f'{hdr("VxA")} {{ fn p(t: &mut crate::__vx::Tok) -> Self {{ t.eat("("); t.eat("s"); t.next(); let r = {n}(' + ', '.join('{ t.next(); ' + P + ' }' for _ in fs) + '); t.eat(")"); r } }\n'
        else:
            a = f'{hdr("VxA")} {{ fn p(t: &mut crate::__vx::Tok) -> Self {{ t.eat("("); t.eat("s"); t.next(); let r = {n} {{ ' + ', '.join(f'{x}: {{ t.eat("{x}"); {P} }}' for x in fs) + ' }; t.eat(")"); r } }\n'
        b = f'{hdr("VxO")} {{ fn o(&self, s: &mut String) {{ s.push_str("( s {n} "); ' + ' '.join(f's.push_str("{x} "); crate::__vx::VxO::o(&self.{x}, s);' for x in fs) + ' s.push_str(") "); } }\n'
        return a + b
    if it['kind'] == 'enum':
        pa = []; oa = []
        for v, fs, *_ in it['variants']:
            if not fs: pa.append(f'"{v}" => {n}::{v}'); oa.append(f'{n}::{v} => s.push_str("( v {v} ")')
            elif fs[0].isdigit():
                pa.append(f'"{v}" => {n}::{v}(' + ', '.join(P for _ in fs) + ')')
                oa.append(f'{n}::{v}(' + ', '.join('x' + x for x in fs) + f') => {{ s.push_str("( v {v} "); ' + ' '.join(f'crate::__vx::VxO::o(x{x}, s);' for x in fs) + ' }')
            else:
                pa.append(f'"{v}" => {{ t.eat("("); t.eat("s"); t.next(); let r = {n}::{v} {{ ' + ', '.join(f'{x}: {{ t.eat("{x}"); {P} }}' for x in fs) + ' }; t.eat(")"); r }')
                oa.append(f'{n}::{v} {{ ' + ', '.join(fs) + f' }} => {{ s.push_str("( v {v} ( s {v} "); ' + ' '.join(f's.push_str("{x} "); crate::__vx::VxO::o({x}, s);' for x in fs) + ' s.push_str(") "); }')
        pa = [x for x in pa if '__Ignore' not in x]
        a = f'{hdr("VxA")} {{ fn p(t: &mut crate::__vx::Tok) -> Self {{ t.eat("("); t.eat("v"); let r = match t.next().as_str() {{ ' + ', '.join(pa) + ', _ => panic!("harness: variant") }; t.eat(")"); r } }\n'
        b = f'{hdr("VxO")} {{ fn o(&self, s: &mut String) {{ match self {{ ' + ', '.join(oa) + ' } s.push_str(") "); } }\n'
        return a + b
    return ''

def meta(f):
    d = {}
    for l in f.get('meta', '').split('\n'):
        l = l.strip().rstrip(',')
        if '=' in l: k, v = l.split('=', 1); d[k.strip()] = v.strip()
    return d

def dispatch(fns):
    arms = []
    for f in fns:
        m = meta(f)
        if m.get('skip'): continue
        inst = m.get('inst', '')
        if 'call' in m: callee = m['call']
        elif f['self_ty']:
            callee = f'<{f["self_ty"]}>::{f["orig"]}' if not f['trait'] else f'<{f["self_ty"]} as {f["trait"]}>::{f["orig"]}'
        else: callee = f['orig']
        lets = []; use = []; muts = []
        for i, (n, ty) in enumerate(f['params']):
            if n == 'self' and not ty.strip().startswith('&') and f['self_ty']: e, pre = f'<{m.get("selfty", f["self_ty"])} as crate::__vx::VxA>::p(t)', ''
            else:
                e, pre = arg_expr(ty)
                if n == 'self': e = f'<{m.get("selfty", f["self_ty"])} as crate::__vx::VxA>::p(t)'
            lets.append(f'let mut a{i} = {e};'); use.append(f'{pre}a{i}')
            if pre == '&mut ': muts.append(i)
        arms.append(f'"{key(f)}" => {{ {" ".join(lets)} let r = {callee}{inst}({", ".join(use)}); let mut s = String::new(); s.push_str("( t "); crate::__vx::VxO::o(&r, &mut s); ' +
                    ' '.join(f'crate::__vx::VxO::o(&a{i}, &mut s);' for i in muts) + ' s.push_str(") "); Some(s) }')
    return '#[allow(unused, unused_mut, clippy::all)]\npub fn __vx_dispatch(id: &str, t: &mut crate::__vx::Tok) -> Option<String> { match id {\n' + ',\n'.join(arms + ['_ => None']) + '\n} }\n'

class Harness:
    """fns: extraction records (with 'orig' names); items: item records; plain: {unit: text} for non-math code"""
    def __init__(self, tag, fns, items, plain={}):
        self.dir = os.path.join(BUILD, 'h_' + tag)
        # types the unit had to rename (two types of one name): back to their path in the crate
        for it in items:
            if it.get('as', it['name']) != it['name'] and it['file'].startswith('math/src/'):
                path = 'crate::' + it['file'][9:-3].replace('/', '::').replace('::mod', '') + '::' + it['name']
                for f in fns: f['params'] = [[n, re.sub(r'\b' + it['as'] + r'\b', path, t)] for n, t in f['params']]
        self.fns = fns; self.items = items; self.plain = plain
        self.err = None
    def build(self):
        d = self.dir
        os.makedirs(os.path.join(d, 'src', 'bin'), exist_ok=True)
        src = os.path.join(d, 'src')
        for n in os.listdir(src):
            p = os.path.join(src, n)
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        base = os.path.join(REPO, 'math', 'src')
        mods = {}
        for root, _, files in os.walk(base):
            for fn in files:
                if not fn.endswith('.rs'): continue
                rel = os.path.relpath(os.path.join(root, fn), base)
                if 'tests' in rel.split(os.sep) or fn in ('tests.rs', 'invariants.rs', 'test_utils.rs', 'test_pow_accuracy.rs'): continue
                t = open(os.path.join(root, fn)).read()
                t = re.sub(r'^(\s*)mod (\w+);', r'\1pub mod \2;', t, flags=re.M)
                mods[rel] = t
        by = {}
        for f in self.fns:
            if f['file'].startswith('math/src/'): by.setdefault(f['file'][9:], []).append(f)
        itf = {}
        for it in self.items:
            if it['file'].startswith('math/src/') and it['kind'] in ('struct', 'enum'): itf.setdefault(it['file'][9:], {})[it['name']] = it
        chain = []
        for rel in set(by) | set(itf):
            if rel not in mods: continue
            t = mods[rel]
            for it in itf.get(rel, {}).values(): t += '\n' + item_impl(it)
            if rel in by:
                t += '\n' + dispatch(by[rel])
                mp = rel[:-3].replace(os.sep, '::')
                if mp.endswith('::mod'): mp = mp[:-5]
                chain.append('' if mp == 'lib' else mp)
            mods[rel] = t
        lib = mods['lib.rs'].replace('#![cfg_attr(not(feature = "std"), no_std)]', '')
        lib = re.sub(r'^#!\[', '#![allow(unused, unexpected_cfgs)]\n#![', lib, count=1, flags=re.M)
        lib += '\npub mod __vx;\n'
        for u, (text, pf, pi) in self.plain.items():
            lib += f'\npub mod __plain_{u};\n'
            mods[f'__plain_{u}.rs'] = '#![allow(warnings)]\n' + text + '\n' + ''.join(item_impl(dict(it, generics=it.get('generics', []) if re.search(r'\b%s<' % it['name'], text) else [], where='')) for it in pi if it['kind'] in ('struct', 'enum') and it['name'] not in ('Error', 'Event')) + dispatch(pf)
            chain.append(f'__plain_{u}')
        body = ' '.join(f'if let Some(s) = crate::{c}::__vx_dispatch(id, t) {{ return Some(s); }}' for c in chain if c)
        name = '__vx_dispatch_lib' if '' in chain else '__vx_dispatch'
        lib += f'\npub fn {"__vx_dispatch" if "" not in chain else "__vx_all"}(id: &str, t: &mut __vx::Tok) -> Option<String> {{ {body} None }}\n'
        mods['lib.rs'] = lib; mods['__vx.rs'] = SUPPORT; mods[os.path.join('bin', 'replay.rs')] = MAIN if '' not in chain else MAIN.replace('__vx_dispatch', '__vx_all')
        for rel, t in mods.items():
            p = os.path.join(src, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(t)
        open(os.path.join(d, 'Cargo.toml'), 'w').write(CARGO.format(V=VERIF))
        lock = os.path.join(VERIF, 'shims', 'harness.lock')
        if os.path.exists(lock): shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
        env = dict(os.environ, RUSTUP_TOOLCHAIN='1.75.0', CARGO_TARGET_DIR=os.path.join(BUILD, 'htarget_' + os.path.basename(d)))
        r = subprocess.run(['cargo', 'build', '--release', '--offline', '--bin', 'replay'], cwd=d, env=env, capture_output=True, text=True)
        self.bin = os.path.join(env['CARGO_TARGET_DIR'], 'release', 'replay')
        if r.returncode != 0:
            self.err = '\n'.join(l for l in r.stderr.split('\n') if l.startswith('error') or l.strip().startswith('-->'))[:4000] or r.stderr[-2000:]
            open(os.path.join(d, 'build.err'), 'w').write(r.stderr)
            return False
        return True
    def run(self, f, cases, timeout=60):
        """cases: list of argument lists -> list of ('ok', value, muts) | ('panic', msg) | ('hang',)"""
        k = key(f); out = []
        i = 0
        while i < len(cases):
            inp = '\n'.join(k + ' ' + ' '.join(write_val(a) for a in c) for c in cases[i:]) + '\n'
            try:
                r = subprocess.run([self.bin], input=inp, capture_output=True, text=True, timeout=timeout)
                lines = r.stdout.split('\n'); dead = 'abort'
            except subprocess.TimeoutExpired as e:
                lines = (e.stdout or b'').decode().split('\n'); dead = 'hang'
            lines = [l for l in lines if l.strip()]
            for l in lines: out.append(self.parse(l))
            i = len(out)
            if i < len(cases):
                out.append((dead,)); i += 1
        return out
    def parse(self, l):
        if l.startswith('PANIC'): return ('panic', l[6:])
        if l.startswith('NOFN'): return ('nofn',)
        v = read_val(l)
        return ('ok', v[0], v[1:])

# ---------------------------------------------------------------------------------------------- inputs
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'U256': 256, 'U512': 512, 'U128': 128, 'FixedU128': 128}
class Gen:
    def __init__(self, rng, items, aliases, literals):
        self.r = rng; self.items = {it['name']: it for it in items}; self.al = aliases
        self.lits = [int(x) for x in literals if x.isdigit()]
        self.pool = []
    def num(self, hi):
        r = self.r; c = r.random()
        if c < 0.16: v = r.choice([0, 1, 2, 3, hi, hi - 1, hi // 2, hi // 2 + 1])
        elif c < 0.26 and self.lits: v = r.choice(self.lits) + r.choice([-1, 0, 0, 1])
        elif c < 0.45 and self.pool: 
            v = r.choice(self.pool)
            v = r.choice([v, v, v + 1, v - 1, v * 2, v // 2, v * r.randint(1, 10), v // r.randint(1, 1000) ])
        elif c < 0.55: v = 10 ** r.randint(0, len(str(hi)))
        elif c < 0.62: v = (1 << r.randint(0, hi.bit_length())) + r.choice([-1, 0, 1])
        elif c < 0.8: v = r.randint(10 ** 6, 10 ** 24)
        else: v = r.getrandbits(r.randint(1, max(1, hi.bit_length())))
        v = max(0, min(v, hi)) if v <= hi or r.random() < 0.5 else v % (hi + 1)
        v = max(0, min(v, hi))
        self.pool.append(v)
        return v
    def val(self, ty):
        ty = ty.replace(' ', '')
        ty = re.sub(r"^&('\w+)?(mut)?", '', ty)
        for _ in range(4):
            if ty in self.al: ty = self.al[ty].replace(' ', '')
        r = self.r
        if ty == 'U256::Inner': ty = 'u128'
        if ty in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize'): return self.num(2 ** BITS[ty] - 1)
        if ty in ('U256', 'U512', 'U128'): return self.num(2 ** (BITS[ty] if r.random() < .3 else BITS[ty] // 2) - 1)
        if ty == 'FixedU128':
            c = r.random()
            if c < .3: return self.num(10 ** 18)
            if c < .6: return min(2 ** 128 - 1, self.num(10 ** 6) * 10 ** 18 + r.choice([0, 0, 1, r.randint(0, 10 ** 18)]))
            return self.num(2 ** 128 - 1)
        if ty == 'Fraction':
            one = 1 << 127; c = r.random()
            if c < .15: return r.choice([0, 1, one, one, one - 1, one // 2])
            if c < .45: return (2 * one) // (r.choice([1, 10, 100, 7200, 201600]) * r.randint(1, 9) + 1)
            if c < .75: return one - (2 * one) // (r.choice([1, 10, 100, 7200, 201600, 10 ** 9]) * r.randint(1, 9) + 1)
            return self.num(one) if c < .97 else self.num(2 ** 128 - 1)
        if ty == 'U32F96':
            one = 1 << 96; c = r.random()
            if c < .15: return r.choice([0, 1, one, one, one + 1, one - 1, 2 * one, 2 * one - 1, one // 2, 2 ** 128 - 1])
            if c < .45: return min(2 ** 128 - 1, one * self.num(10 ** 6) // (self.num(10 ** 6) + 1))
            return self.num(2 * one) if c < .8 else self.num(2 ** 128 - 1)
        if ty == 'Permill': return self.per(10 ** 6)
        if ty == 'Perbill': return self.per(10 ** 9)
        if ty == 'Percent': return self.per(100)
        if ty == 'Perquintill': return self.per(10 ** 18)
        if ty in ('i8', 'i16', 'i32', 'i64', 'i128'):
            v = self.num(2 ** (BITS[ty] - 1) - 1); return -v if r.random() < .5 else v
        if ty == 'NonZeroU128': return max(1, self.num(2 ** 128 - 1))
        if ty == 'bool': return r.random() < .5
        if ty == 'H160': return [self.num(255) for _ in range(20)]
        if ty == 'PerRounding': return V(r.choice(['Up', 'Down', 'NearestPrefUp', 'NearestPrefDown']))
        if ty == 'Rounding': return V(r.choice(['Up', 'Down']))
        if ty == '()': return ()
        if ty.startswith('('): return tuple(self.val(x) for x in split_top(ty[1:-1]))
        m = re.match(r'(?:core::option::)?Option<(.*)>$', ty)
        if m: return V('Some', (self.val(m.group(1)),)) if r.random() < .75 else V('None')
        m = re.match(r'\[(.*);(\d+)\]$', ty)
        if m: return [self.val(m.group(1)) for _ in range(int(m.group(2)))]
        m = re.match(r'(?:Vec<(.*)>|\[(.*)\]|BoundedVec<(.*),.*>)$', ty)
        if m:
            e = m.group(1) or m.group(2) or m.group(3)
            return [self.val(e) for _ in range(r.choice([0, 1, 2, 2, 2, 3, 3, 4, 5]))]
        base = re.match(r'(\w+)(?:<(.*)>)?$', ty.split('::')[-1] if '<' not in ty else ty)
        if base and base.group(1) in self.items:
            it = self.items[base.group(1)]
            ga = split_top(base.group(2)) if base.group(2) else []
            sub = dict(zip(it.get('generics', []), ga))
            def s(t): return re.sub(r'\b\w+\b', lambda m: sub.get(m.group(0), m.group(0)), t)
            if it['kind'] == 'struct': return S(it['name'], {f: self.val(s(t)) for f, t in zip(it['fields'], it['types'])})
            v = r.choice([v for v in it['variants'] if not v[0].startswith('__')])
            if v[1] and not v[1][0].isdigit(): return V(v[0], (S(v[0], {f: self.val(s(t)) for f, t in zip(v[1], v[2])}),))
            return V(v[0], tuple(self.val(s(t)) for t in v[2]))
        raise NoEval('no generator for type ' + ty)
    def per(self, hi):
        r = self.r
        return r.choice([0, 1, hi, hi - 1, hi // 2, r.randint(0, hi), r.randint(0, hi), r.randint(0, hi // 100)])

def split_top(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '(<[': d += 1
        if ch in ')>]': d -= 1
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur)
    return out

def freeze(v):
    if isinstance(v, list): return tuple(freeze(x) for x in v)
    if isinstance(v, tuple): return tuple(freeze(x) for x in v)
    if isinstance(v, V): return V(v.tag, tuple(freeze(x) for x in v.a))
    if isinstance(v, S): return S(v.n, {k: freeze(x) for k, x in v.d.items()})
    return v

def search(h, spec, f, items, seed, budget, want=200000):
    """Look for an input that satisfies `requires` on which the real function contradicts `ensures`.
    Returns (failure or None, stats)."""
    names = [p[0] for p in f['params']]
    req = spec.clauses(f.get('requires', ''), names)
    ens = spec.clauses(f.get('ensures', ''), names + ['r'])
    stats = dict(evaluations=0, accepted=0, unreadable=[c[0] for c in req + ens if isinstance(c[1], str)])
    if meta(f).get('skip') or any(isinstance(c[1], str) for c in req): return None, stats
    ens = [c for c in ens if not isinstance(c[1], str)]
    al = {it['name']: it['type'] for it in items if it['kind'] == 'alias'}
    al.update({k: v for k, v in ALIAS.items()})
    mt = meta(f)
    gens = {k[4:]: v for k, v in mt.items() if k.startswith('gen.')}
    al.update({k[6:]: v for k, v in mt.items() if k.startswith('alias.')})
    rng = random.Random(f'{seed}/{f["id"]}')
    g = Gen(rng, items, al, f.get('literals', []))
    t0 = time.time(); distinct = set(); samples = []
    GNS = dict(spec.ns); GNS.update(r=rng, g=g, V=V, S=S)
    while time.time() - t0 < budget and stats['evaluations'] < want:
        batch = []
        tries = 0
        while len(batch) < 3000 and tries < 60000:
            tries += 1
            g.pool = []
            try:
                env = {}
                todo = list(f['params'])
                while todo:
                    n, ty = todo.pop(0)
                    if n in gens:
                        # a generator may refer to parameters that come later
                        try: env[n] = eval(gens[n], GNS, env)
                        except NameError:
                            if not todo: raise
                            todo.append((n, ty))
                    else: env[n] = g.val(ty.replace('Self', f['self_ty'] or 'Self') if n != 'self' else mt.get('selfty', f['self_ty']))
            except NoEval as e:
                stats['unreadable'].append(str(e)); return None, stats
            fz = {k: freeze(v) for k, v in env.items()}
            try:
                if all(c[1](**fz) for c in req): batch.append((env, fz))
            except (NoEval, ZeroDivisionError, IndexError, TypeError, AttributeError): pass
            if tries > 3000 and time.time() - t0 > budget: break
        if not batch: break
        res = h.run(f, [[e[n] for n in names] for e, _ in batch])
        muts = [n for n, ty in f['params'] if ty.strip().startswith('&') and ' mut ' in ' ' + ty.strip()[1:].strip() + ' ' and ty.strip()[1:].strip().startswith('mut')]
        for (e, fz), r in zip(batch, res):
            stats['evaluations'] += 1
            if r[0] == 'nofn': stats['unreadable'].append('no dispatcher'); return None, stats
            if r[0] != 'ok':
                if r[0] == 'panic' and 'harness:' in r[1]: stats['unreadable'].append(r[1]); return None, stats
                return dict(input=fz, outcome=r[0] + (' ' + r[1] if len(r) > 1 else ''), clause='no panic / terminates under requires'), stats
            env2 = dict(fz); env2['r'] = r[1]
            for n, v in zip(muts, r[2]): env2[n + '__old'] = fz[n]; env2[n] = v
            for n in names: env2.setdefault(n + '__old', fz[n])
            ok = True
            for txt, c in ens:
                try:
                    if not c(**{k: v for k, v in env2.items()}):
                        return dict(input=fz, outcome=repr(r[1]) + (f' muts={r[2]!r}' if r[2] else ''), clause=txt), stats
                except (NoEval, ZeroDivisionError, IndexError, AttributeError, TypeError, KeyError) as ex: 
                    ok = False
            if ok:
                stats['accepted'] += 1
                k = repr(r[1])
                distinct.add(k)
                if len(samples) < 3: samples.append(f'{f["name"]}({fz}) = {r[1]!r}')
    stats['distinct_results'] = len(distinct); stats['samples'] = samples
    return None, stats
