"""Executable reading of the contract language used in /verif/units.

Parses the spec functions and requires/ensures clauses (a first-order subset of Verus) and turns them into
Python over unbounded integers, so that a contract can be evaluated on concrete inputs and on the value the
real code returned.  Used by the replay step only; the verdict of a proof never depends on it."""
import re, sys
sys.setrecursionlimit(100000)

class V:
    __slots__ = ('tag', 'a')
    def __init__(s, tag, a=()): s.tag = tag; s.a = tuple(a)
    def __eq__(s, o): return isinstance(o, V) and s.tag == o.tag and s.a == o.a
    def __ne__(s, o): return not s == o
    def __hash__(s): return hash((s.tag, s.a))
    def __repr__(s): return s.tag + (('(' + ', '.join(map(repr, s.a)) + ')') if s.a else '')
class S:
    def __init__(s, name, d): s.n = name; s.d = d
    def __eq__(s, o): return isinstance(o, S) and s.n == o.n and s.d == o.d
    def __ne__(s, o): return not s == o
    def __hash__(s): return hash((s.n, tuple(sorted(s.d.items()))))
    def __repr__(s): return s.n + '{' + ', '.join(f'{k}: {v!r}' for k, v in s.d.items()) + '}'
class NoEval(Exception): pass

TOK = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<num>0x[0-9a-fA-F_]+|\d[\d_]*)(?P<suf>(?:u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|int|nat)\b)?|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<op>=~~=|=~=|<==>|==>|===|&&&|\|\|\||&&|\|\||==|!=|<=|>=|->|=>|::|\.\.|[-+*/%<>!&|(){}\[\],;:.@#=?])''', re.S)

def lex(s):
    out = []; i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise NoEval('lex: ' + s[i:i+30])
        i = m.end()
        if m.group('num'): out.append(('n', int(m.group('num').replace('_', ''), 0)))
        elif m.group('id'): out.append(('i', m.group('id')))
        elif m.group('op'): out.append(('o', '==' if m.group('op') in ('=~=', '=~~=') else m.group('op')))
    return out

INTS = {'u8': (0, 2**8-1), 'u16': (0, 2**16-1), 'u32': (0, 2**32-1), 'u64': (0, 2**64-1), 'u128': (0, 2**128-1), 'usize': (0, 2**64-1),
        'i8': (-2**7, 2**7-1), 'i16': (-2**15, 2**15-1), 'i32': (-2**31, 2**31-1), 'i64': (-2**63, 2**63-1), 'i128': (-2**127, 2**127-1), 'isize': (-2**63, 2**63-1)}
ALIAS = {}

class P:
    """Recursive descent; produces Python source."""
    def __init__(s, toks, env, fresh=None): s.t = toks; s.i = 0; s.env = [dict((v, v) for v in env)]; s.fresh = fresh or [0]
    def pk(s, k=0): return s.t[s.i+k] if s.i+k < len(s.t) else ('e', '')
    def nx(s): x = s.pk(); s.i += 1; return x
    def at(s, v): return s.pk()[0] in 'oi' and s.pk()[1] == v
    def eat(s, v):
        if not s.at(v): raise NoEval(f'expected {v} at {s.t[max(0,s.i-5):s.i+6]}')
        s.i += 1
    def opt(s, v):
        if s.at(v): s.i += 1; return True
        return False
    def bind(s, v):
        s.fresh[0] += 1; n = f'{v}_{s.fresh[0]}'; s.env[-1][v] = n; return n
    def look(s, v):
        for e in reversed(s.env):
            if v in e: return e[v]
        return None
    # ---- expressions
    def expr(s): return s.iff()
    def iff(s):
        if s.at('&&&') or s.at('|||'):
            op = s.pk()[1]; r = []
            s.env.append({})
            while s.opt(op): r.append(s.iff2())
            s.env.pop()
            return '(' + (' and ' if op == '&&&' else ' or ').join(r) + ')'
        return s.iff2()
    def iff2(s):
        l = s.imp()
        while s.opt('<==>'): l = f'(bool({l}) == bool({s.imp()}))'
        return l
    def imp(s):
        s.env.append({})
        l = s.or_()
        if s.opt('==>'): l = f'((not {l}) or {s.imp()})'
        s.env.pop()
        return l
    def or_(s):
        l = s.and_()
        while s.opt('||'): l = f'({l} or {s.and_()})'
        return l
    def and_(s):
        l = s.cmp()
        while s.opt('&&'): l = f'({l} and {s.cmp()})'
        return l
    def cmp(s):
        l = s.add()
        parts = []
        while True:
            o = s.pk()
            if o[0] == 'o' and o[1] in ('==', '!=', '<', '<=', '>', '>=', '==='):
                s.nx(); r = s.add(); parts.append((o[1], r))
            elif o == ('i', 'is'):
                s.nx(); n = s.path(); l = f'({l}.tag == {n[-1]!r})'
            elif o == ('i', 'matches'):
                s.nx(); v = s.tmp(); c = s.pat(v); l = f'(({v} := {l}, {c})[-1])'
            else: break
        if not parts: return l
        res = []; prev = l
        for k, (op, r) in enumerate(parts):
            op = '==' if op == '===' else op
            if k < len(parts) - 1:
                t = s.tmp(); res.append(f'({prev} {op} ({t} := {r}))'); prev = t
            else: res.append(f'({prev} {op} {r})')
        return '(' + ' and '.join(res) + ')'
    def tmp(s): s.fresh[0] += 1; return f'_t{s.fresh[0]}'
    def add(s):
        l = s.mul()
        while s.pk()[0] == 'o' and s.pk()[1] in '+-' and len(s.pk()[1]) == 1:
            o = s.nx()[1]; r = s.mul()
            l = f'({l} {o} {r})'
        return l
    def mul(s):
        l = s.cast()
        while s.pk()[0] == 'o' and s.pk()[1] in ('*', '/', '%'):
            o = s.nx()[1]; r = s.cast()
            l = f'({l} * {r})' if o == '*' else f'{"_div" if o == "/" else "_mod"}({l}, {r})'
        return l
    def cast(s):
        l = s.unary()
        while s.opt('as'):
            t = s.path()[-1]
            t = ALIAS.get(t, t)
            if t in INTS: l = f'_cast({l}, {t!r})'
            elif t in ('int', 'nat'): l = f'_int({l})'
        return l
    def unary(s):
        if s.opt('!'): return f'(not {s.unary()})'
        if s.opt('-'): return f'(-{s.unary()})'
        if s.opt('*') or s.opt('&'):
            s.opt('mut'); return s.unary()
        return s.post(s.prim())
    def path(s):
        k, v = s.nx()
        if k != 'i': raise NoEval(f'path at {v}')
        r = [v]
        while s.at('::'):
            s.nx()
            if s.at('<'): s.generic(); continue
            r.append(s.nx()[1])
        if s.at('<') and False: s.generic()
        return r
    def generic(s):
        d = 0
        while True:
            x = s.nx()
            if x[1] == '<': d += 1
            if x[1] == '>':
                d -= 1
                if d == 0: return
            if x[0] == 'e': raise NoEval('generic')
    def args(s):
        r = []
        while not s.opt(')'):
            r.append(s.expr())
            if not s.opt(','):
                s.eat(')'); break
        return r
    def post(s, l):
        while True:
            if s.opt('@'): l = f'_view({l})'
            elif s.at('.') and s.pk(1)[0] in 'in':
                s.nx(); k, v = s.nx()
                if s.at('::'): s.nx(); s.generic()
                if k == 'n': l = f'_tf({l}, {v})'
                elif s.opt('('):
                    a = s.args(); l = f'M_{v}(' + ', '.join([l] + a) + ')'
                else: l = f'{l}.d[{v!r}]'
            elif s.opt('->'):
                k, v = s.nx()
                l = f'{l}.a[{v}]' if k == 'n' else f'_fld({l}, {v!r})'
            elif s.opt('['):
                e = s.expr(); s.eat(']'); l = f'{l}[{e}]'
            else: return l
    def block(s):
        s.eat('{'); s.env.append({}); r = s.body(); s.eat('}'); s.env.pop(); return r
    def body(s):
        if s.opt('let'):
            if s.opt('('):
                names = []
                while not s.opt(')'):
                    names.append(s.nx()[1]); s.opt(',')
                s.eat('='); e = s.expr(); s.eat(';')
                t = s.tmp(); ns = [s.bind(n) for n in names]
                return f'({t} := {e}, ' + ', '.join(f'({n} := {t}[{i}])' for i, n in enumerate(ns)) + f', {s.body()})[-1]'
            v = s.nx()[1]
            if s.opt(':'):
                s.ty()
            s.eat('='); e = s.expr(); s.eat(';'); n = s.bind(v)
            return f'(({n} := {e}), {s.body()})[-1]'
        return s.expr()
    def ty(s):
        d = 0
        while True:
            v = s.pk()[1]
            if v in ('(', '<', '['): d += 1
            elif v in (')', '>', ']'):
                if d == 0: return
                d -= 1
            elif d == 0 and v in ('=', ',', '|', '{', ';'): return
            s.nx()
    def pat(s, v):
        """returns a python condition (with bindings) for value variable v"""
        alts = [s.pat1(v)]
        while s.opt('|'): alts.append(s.pat1(v))
        return '(' + ' or '.join(alts) + ')'
    def pat1(s, v):
        k, x = s.pk()
        if s.opt('('):
            r = []; i = 0
            while not s.opt(')'):
                t = s.tmp(); r.append(f'(({t} := {v}[{i}]), {s.pat(t)})[-1]'); i += 1; s.opt(',')
            return '(' + ' and '.join(r or ['True']) + ')'
        if k == 'n': s.nx(); return f'({v} == {x})'
        if s.opt('-'): return f'({v} == -{s.nx()[1]})'
        if x == '_': s.nx(); return 'True'
        if x in ('true', 'false'): s.nx(); return f'({v} is {x.capitalize()})'
        s.opt('ref') or s.opt('mut')
        p = s.path()
        if s.opt('('):
            r = []; i = 0
            while not s.opt(')'):
                if s.opt('..'): s.opt(','); continue
                t = s.tmp(); r.append(f'(({t} := {v}.a[{i}]), {s.pat(t)})[-1]'); i += 1; s.opt(',')
            return '(' + ' and '.join([f'{v}.tag == {p[-1]!r}'] + r) + ')'
        if s.opt('{'):
            r = []
            while not s.opt('}'):
                if s.opt('..'): continue
                f = s.nx()[1]
                if s.opt(':'): t = s.tmp(); r.append(f'(({t} := _fld({v}, {f!r})), {s.pat(t)})[-1]')
                else: n = s.bind(f); r.append(f'(({n} := _fld({v}, {f!r})), True)[-1]')
                s.opt(',')
            return '(' + ' and '.join([f'_is({v}, {p[-1]!r})'] + r) + ')'
        if len(p) == 1 and (p[0][0].islower() or p[0][0] == '_'):
            n = s.bind(p[0]); return f'(({n} := {v}), True)[-1]'
        if len(p) == 2 and p[0] in INTS: return f'({v} == {INTS[p[0]][1 if p[1] == "MAX" else 0]})'
        return f'({v}.tag == {p[-1]!r})'
    def prim(s):
        k, v = s.pk()
        if k == 'n': s.nx(); return str(v)
        if s.opt('('):
            if s.opt(')'): return '()'
            e = s.expr()
            if s.opt(','):
                r = [e]
                while not s.opt(')'):
                    r.append(s.expr()); s.opt(',')
                return '(' + ', '.join(r) + ',)'
            s.eat(')'); return f'({e})'
        if s.at('{'): return s.block()
        if v == 'if':
            s.nx(); s.env.append({})
            if s.opt('let'):
                t = s.tmp(); save = s.i
                # pattern first, scrutinee after: parse pattern twice to keep scoping simple
                c = s.pat(t); s.eat('='); e = s.noblock(); c = f'(({t} := {e}), {c})[-1]'
            else: c = s.noblock()
            a = s.block(); s.env.pop(); s.eat('else')
            b = s.prim() if s.at('if') else s.block()
            return f'({a} if {c} else {b})'
        if v == 'match':
            s.nx(); e = s.noblock(); t = s.tmp(); s.eat('{'); arms = []
            while not s.opt('}'):
                s.env.append({}); c = s.pat(t); 
                if s.opt('if'): c = f'({c} and {s.expr()})'
                s.eat('=>'); b = s.expr(); s.env.pop(); s.opt(','); arms.append((c, b))
            r = '_nomatch()'
            for c, b in reversed(arms): r = f'({b} if {c} else {r})'
            return f'(({t} := {e}), {r})[-1]'
        if v == '|':
            s.nx(); s.env.append({}); ns = []
            while not s.opt('|'):
                ns.append(s.bind(s.nx()[1]))
                if s.opt(':'): s.ty()
                s.opt(',')
            b = s.expr(); s.env.pop()
            return f'(lambda {", ".join(ns)}: {b})'
        if v in ('forall', 'exists'):
            s.nx(); s.eat('|'); vs = []
            s.env.append({})
            while not s.opt('|'):
                n = s.nx()[1]; vs.append(n)
                if s.opt(':'): s.ty()
                s.opt(',')
            if s.opt('#'): 
                raise NoEval('trigger attr')
            ns = [s.bind(n) for n in vs]
            # bounded form: lo <= i < hi [&& ...] ==> / && body
            if len(ns) != 1: raise NoEval('quantifier arity')
            lo = s.add(); o1 = s.nx()[1]; s.add(); o2 = s.nx()[1]; hi = s.add()
            lo = lo if o1 == '<=' else f'({lo} + 1)'
            hi = hi if o2 == '<' else f'({hi} + 1)'
            if v == 'forall':
                if s.opt('==>'): b = s.imp()
                else:
                    s.eat('&&'); g = s.and_(); s.eat('==>'); b = f'((not {g}) or {s.imp()})'
                s.env.pop()
                return f'all((lambda {ns[0]}: {b})(_q) for _q in range({lo}, {hi}))'
            s.eat('&&'); b = s.and_(); s.env.pop()
            return f'any((lambda {ns[0]}: {b})(_q) for _q in range({lo}, {hi}))'
        if v == 'choose': raise NoEval('choose')
        if k == 'i':
            if v in ('true', 'false'): s.nx(); return v.capitalize()
            if v in ('old', 'final'):
                s.nx(); s.eat('('); s.opt('*'); e = s.expr(); s.eat(')')
                return e + ('__old' if v == 'old' else '')
            p = s.path()
            if p[0] == 'Self': p = [s.selfty] + p[1:] if getattr(s, 'selfty', None) else p
            if s.at('!'):
                s.nx()
                if p[-1] == 'seq':
                    s.eat('['); r = []
                    while not s.opt(']'): r.append(s.expr()); s.opt(',')
                    return '(' + ''.join(x + ',' for x in r) + ')'
                raise NoEval('macro')
            if s.opt('('):
                a = s.args()
                if p[-2:] == ['Seq', 'new']: return f'_seqnew({a[0]}, {a[1]})'
                if p[-2:] == ['Seq', 'empty']: return '()'
                if p[-1] in ('Some', 'Ok', 'Err') or (len(p) >= 2 and p[-1][0].isupper()): return f'V({p[-1]!r}, (' + ''.join(x + ',' for x in a) + '))'
                if p[-1][0].isupper() and s.look(p[-1]) is None: return f'V({p[-1]!r}, (' + ''.join(x + ',' for x in a) + '))'
                return f'F_{p[-1]}(' + ', '.join(a) + ')'
            if s.at('{') and p[-1][0].isupper() and not getattr(s, 'nob', False) and s.look(p[-1]) is None and s.pk(1)[0] == 'i' and (s.pk(2)[1] in (':', ',', '}') ):
                s.nx(); d = []; base = None
                while not s.opt('}'):
                    if s.opt('..'): base = s.expr(); continue
                    f = s.nx()[1]
                    if s.opt(':'): d.append(f'{f!r}: {s.expr()}')
                    else: d.append(f'{f!r}: {s.look(f)}')
                    s.opt(',')
                if base: return f'S({p[-1]!r}, dict({base}.d, **{{' + ', '.join(d) + '}))'
                return f'S({p[-1]!r}, {{' + ', '.join(d) + '})'
            if len(p) == 1:
                l = s.look(p[0])
                if l: return l
                if p[0] == 'None': return "V('None')"
                if p[0].isupper() or '_' in p[0] and p[0].upper() == p[0]: return f'C_{p[0]}()'
                if p[0][0].isupper(): return f'V({p[0]!r})'
                raise NoEval('unbound ' + p[0])
            t = ALIAS.get(p[-2], p[-2])
            if t in INTS and p[-1] in ('MAX', 'MIN'): return str(INTS[t][1 if p[-1] == 'MAX' else 0])
            if p[-1].upper() == p[-1] and len(p[-1]) > 1: return f'C_{p[-2]}_{p[-1]}()'
            return f'V({p[-1]!r})'
        raise NoEval(f'prim {v}')
    def noblock(s):
        old = getattr(s, 'nob', False); s.nob = True
        try: return s.expr()
        finally: s.nob = old

def _div(a, b):
    if b == 0: raise ZeroDivisionError
    return a // b if b > 0 else -(a // -b)
def _mod(a, b):
    if b == 0: raise ZeroDivisionError
    return a % abs(b)
def _cast(a, t):
    if isinstance(a, bool): a = int(a)
    if isinstance(a, V): raise NoEval('cast of enum')
    lo, hi = INTS[t]
    if lo <= a <= hi: return a
    n = hi - lo + 1
    return (a - lo) % n + lo
def _int(a): return int(a) if not isinstance(a, V) else a
def _view(a): return a
def _tf(a, i):
    if isinstance(a, tuple): return a[i]
    if isinstance(a, S): return a.d[str(i)]
    return a.a[i]
def _fld(a, f):
    if isinstance(a, S): return a.d[f]
    for x in a.a:
        if isinstance(x, S) and f in x.d: return x.d[f]
    raise NoEval('field ' + f)
def _is(a, n): return (a.n if isinstance(a, S) else a.tag) == n
def _nomatch(): raise NoEval('no match')
def isqrt(n):
    import math
    return math.isqrt(n)

BASE = dict(V=V, S=S, NoEval=NoEval, _div=_div, _mod=_mod, _cast=_cast, _int=_int, _view=_view, _tf=_tf, _fld=_fld, _is=_is, _nomatch=_nomatch,
    _seqnew=lambda n, f: tuple(f(i) for i in range(n)),
    M_remove=lambda x, i: tuple(x[:i]) + tuple(x[i+1:]), M_add=lambda x, y: tuple(x) + tuple(y), M_skip=lambda x, n: tuple(x[n:]),
    M_is_some=lambda x: x.tag == 'Some', M_is_none=lambda x: x.tag == 'None', M_is_ok=lambda x: x.tag == 'Ok', M_is_err=lambda x: x.tag == 'Err',
    M_unwrap=lambda x: x.a[0], M_view=lambda x: x, M_len=lambda x: len(x), M_deref=lambda x: x,
    M_push=lambda x, y: tuple(x) + (y,), M_update=lambda x, i, v: tuple(x[:i]) + (v,) + tuple(x[i+1:]), M_subrange=lambda x, a, b: tuple(x[a:b]),
    M_drop_last=lambda x: tuple(x[:-1]), M_drop_first=lambda x: tuple(x[1:]), M_last=lambda x: x[-1], M_first=lambda x: x[0], M_take=lambda x, n: tuple(x[:n]), M_vx_int=lambda x: x,
    F_p128=lambda: 1 << 128, F_p256=lambda: 1 << 256, F_p512=lambda: 1 << 512)

def balanced(s, i, o='{', c='}'):
    d = 0
    while i < len(s):
        if s[i] == o: d += 1
        elif s[i] == c:
            d -= 1
            if d == 0: return i
        i += 1
    raise NoEval('unbalanced')

def strip_comments(t): return re.sub(r'#!?\[trigger[^\]]*\]', '', re.sub(r'//[^\n]*', '', t))

def params(t):
    """'a: int, b: (u8, u8)' -> names"""
    out = []; d = 0; cur = ''
    for ch in t + ',':
        if ch in '(<[': d += 1
        if ch in ')>]': d -= 1
        if ch == ',' and d == 0:
            cur = cur.strip()
            if cur:
                n = cur.split(':')[0].replace('&', '').replace('mut ', '').strip()
                out.append(n)
            cur = ''
        else: cur += ch
    return out

class Spec:
    def __init__(self, text):
        text = strip_comments(text)
        self.ns = dict(BASE); self.bad = {}
        for m in re.finditer(r'^\s*pub\s+type\s+(\w+)\s*=\s*(\w+)\s*;', text, re.M): ALIAS[m.group(1)] = m.group(2)
        for m in re.finditer(r'\bspec\s+fn\s+(\w+)\s*(?:<[^(]*>)?\s*\(', text):
            name = m.group(1)
            pre = text[max(0, m.start()-200):m.start()]
            try:
                i = m.end() - 1; j = balanced(text, i, '(', ')')
                ps = params(text[i+1:j])
                k = j + 1
                # body start: the first '{' or ';' at depth 0
                while text[k] not in '{;': k += 1
                if text[k] == ';':
                    if name not in self.ns and 'F_' + name not in self.ns: self.uninterp(name)
                    continue
                e = balanced(text, k)
                body = text[k:e+1]
                method = bool(ps) and ps[0] == 'self'
                key = ('M_' if method else 'F_') + name
                if key in BASE: continue
                self.define(key, ps, body)
            except NoEval as ex:
                self.bad[name] = str(ex)
        for m in re.finditer(r'\bconst\s+(\w+)\s*:\s*([^=]+?)=\s*([^;]+);', text):
            n, ty, ex = m.groups()
            try: self.define('C_' + n, [], '{' + ex.replace('U256::from', '').replace('FixedU128::from_inner', '') + '}')
            except NoEval as er: self.bad[n] = str(er)
    def uninterp(self, name):
        def f(*a): raise NoEval('uninterpreted ' + name)
        self.ns.setdefault('F_' + name, f); self.ns.setdefault('M_' + name, f)
    def define(self, key, ps, body):
        p = P(lex(body), ps)
        src = p.block()
        if p.pk()[0] != 'e': raise NoEval('trailing')
        code = f'def {key}({", ".join(ps)}):\n    return {src}\n'
        try: exec(code, self.ns)
        except (SyntaxError, RecursionError) as e: raise NoEval(f'{e}: {code[:200]}')
    def clauses(self, text, names):
        """split a requires/ensures text into python callables"""
        toks = lex(strip_comments(text))
        out = []; cur = []; d = 0
        for t in toks + [('o', ',')]:
            if t[0] == 'o' and t[1] in '([{' and len(t[1]) == 1: d += 1
            if t[0] == 'o' and t[1] in ')]}' and len(t[1]) == 1: d -= 1
            if t == ('o', ',') and d == 0:
                if cur: out.append(cur)
                cur = []
            else: cur.append(t)
        res = []
        for c in out:
            txt = ' '.join(str(x[1]) for x in c)
            try:
                p = P(c, names); src = p.expr()
                if p.pk()[0] != 'e': raise NoEval(f'trailing {p.t[p.i:p.i+5]}')
                ns = dict(); allnames = list(names) + [n + '__old' for n in names]
                exec(f'def _c({", ".join(n + "=None" for n in allnames)}):\n    return {src}\n', self.ns, ns)
                res.append((txt, ns['_c']))
            except (NoEval, SyntaxError, RecursionError) as e:
                res.append((txt, str(e)))
        return res

def parse_val(toks):
    """s-expression tokens (reversed list) -> value"""
    t = toks.pop()
    if t == '(':
        k = toks.pop()
        r = []
        if k == 't':
            while toks[-1] != ')': r.append(parse_val(toks))
            toks.pop(); return tuple(r)
        if k == 'l':
            while toks[-1] != ')': r.append(parse_val(toks))
            toks.pop(); return tuple(r)
        if k == 'v':
            n = toks.pop()
            while toks[-1] != ')': r.append(parse_val(toks))
            toks.pop(); return V(n, r)
        if k == 's':
            n = toks.pop(); d = {}
            while toks[-1] != ')':
                f = toks.pop(); d[f] = parse_val(toks)
            toks.pop(); return S(n, d)
        raise ValueError(k)
    if t == 'T': return True
    if t == 'F': return False
    return int(t)
def read_val(s): return parse_val(list(reversed(s.replace('(', ' ( ').replace(')', ' ) ').split())))
def write_val(v):
    if v is True: return 'T'
    if v is False: return 'F'
    if isinstance(v, int): return str(v)
    if isinstance(v, tuple): return '( t ' + ' '.join(map(write_val, v)) + ' )'
    if isinstance(v, list): return '( l ' + ' '.join(map(write_val, v)) + ' )'
    if isinstance(v, V): return f'( v {v.tag} ' + ' '.join(map(write_val, v.a)) + ' )'
    if isinstance(v, S): return f'( s {v.n} ' + ' '.join(f'{k} {write_val(x)}' for k, x in v.d.items()) + ' )'
    raise ValueError(v)
