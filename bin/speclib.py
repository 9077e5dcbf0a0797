"""Executable readings for spec functions that vspec.py cannot translate (sequence comprehensions, sorting, const
generics).  Used by the replay step only."""
from vspec import S
def apply(spec):
    ns = spec.ns
    V = ns['V']
    def ov(name, f):
        ns[name] = f; spec.bad.pop(name[2:], None)
    ov('F_max_pts', lambda: 100)  # as the replay is compiled
    ov('F_ints', lambda s: tuple(int(x) for x in s))
    ov('F_ints256', lambda s: tuple(int(x) for x in s))
    ov('F_srt', lambda s: tuple(sorted(s)))
    ov('F_sum', lambda s, k: sum(s[:max(0, k)]))
    ov('F_noz', lambda s: all(x != 0 for x in s))
    ov('F_allz', lambda s: all(x == 0 for x in s))
    ov('F_bnd', lambda s: all(0 <= x < 2 ** 128 for x in s))
    # const generics of the stableswap solvers: the values the pallet instantiates
    ns.setdefault('C_D', lambda: ns.get('vx_D', 64)); ns.setdefault('C_Y', lambda: 128)
    ov('F_without', lambda s, i: s[:i] + s[i+1:] if 0 <= i < len(s) else s)
    # ---- input generators named in `meta gen.*`
    U = 2 ** 128 - 1
    def gen_xp(r, g, lo=0):
        n = r.choice([0, 1, 2, 2, 2, 3, 3, 4, 5, 5]) if not lo else r.choice([2, 2, 3, 3, 4, 5])
        b = r.choice([1, 10 ** 3, 10 ** 12, 10 ** 18, 10 ** 20, 10 ** 24, 10 ** 27, 2 ** r.randint(0, 127)])
        xs = [min(U, max(0, b + r.randint(0, b) * r.choice([-1, 0, 1, 1, 5])) + r.randint(0, 5)) for _ in range(n)]
        if r.random() < .12: xs = [g.num(U) for _ in range(n)]
        if n and r.random() < .06: xs[r.randrange(n)] = 0
        if r.random() < .02: xs = [0] * n
        return xs
    def gen_amp(r, g): return r.choice([1, 2, 10, 100, 1000, 10000, r.randint(0, 10000), r.randint(0, 10000), g.num(U)])
    def gen_d(r, g, xp): return min(U, r.choice([sum(xp), sum(xp) + r.randint(0, 1 + sum(xp)), sum(xp) * 2, r.randint(0, 1 + 2 * sum(xp)), g.num(U)]))
    def gen_idx(r, xs): return r.choice([0, 1, 0, 1, r.randint(0, max(0, len(xs) - 1)), r.randint(0, max(0, len(xs) - 1)), len(xs)])
    def gen_amt(r, g, xs):
        m = max(list(xs) + [1]); return min(U, r.choice([0, 1, r.randint(0, m), r.randint(0, m // 10 + 1), r.randint(0, m // 1000 + 1), g.num(U)]))
    def gen_rs(r, g):
        n = r.choice([0, 1, 2, 2, 2, 3, 3, 4, 5])
        c = r.random(); b = r.choice([1, 10 ** 3, 10 ** 6, 10 ** 9, r.randint(1, 10 ** 10)])
        dec = r.choice([6, 8, 10, 12, 18, 18])
        out = []
        for _ in range(n):
            d = dec if r.random() < .5 else r.choice([0, 1, 6, 8, 10, 12, 18, 18, 19, 24]) if r.random() < .8 else r.randint(0, 255)
            a = b * 10 ** min(d, 24) // r.choice([1, 1, 10]) + r.randint(0, 10 ** min(d, 24)) * r.choice([0, 1, 1])
            if r.random() < .03: a = r.choice([0, 1, g.num(U)])
            out.append(S('AssetReserve', dict(amount=min(a, U), decimals=d)))
        return out
    def gen_rs2(r, g, rs):
        m = r.choice([1, 1, 2, 3])
        out = [S('AssetReserve', dict(amount=min(U, max(0, x.d['amount'] * m + r.choice([0, 0, 1, -1, r.randint(0, x.d['amount'] + 1), r.randint(0, x.d['amount'] // 100 + 1)]))), decimals=x.d['decimals'] if r.random() < .99 else r.randint(0, 30))) for x in rs]
        if r.random() < .03: out = out[:-1]
        return out
    def gen_ra(r, g, rs, i=None):
        m = rs[i].d['amount'] if i is not None and i < len(rs) else max([x.d['amount'] for x in rs] + [1])
        return min(U, r.choice([0, 1, 2, r.randint(0, m), r.randint(0, m // 10 + 1), r.randint(0, m // 1000 + 1), m, m + 1, g.num(U)]))
    def gen_iss(r, g, rs): 
        t = sum(x.d['amount'] * 10 ** max(0, 18 - x.d['decimals']) for x in rs)
        return min(U, r.choice([0, t, t, t + r.randint(0, t + 1), t // r.randint(1, 10), g.num(U)]))
    def gen_part(r, g, t): return min(U, r.choice([0, 1, r.randint(0, t), r.randint(0, t), r.randint(0, t // 1000 + 1), t, t + 1]))
    def gen_fee(r): return r.choice([0, 1, 100, 3000, 10 ** 6, 10 ** 6 - 1, r.randint(0, 10 ** 6), r.randint(0, 10 ** 4)])
    ns.update(gen_rs=gen_rs, gen_rs2=gen_rs2, gen_ra=gen_ra, gen_iss=gen_iss, gen_part=gen_part, gen_fee=gen_fee)
    ns.update(gen_xp=gen_xp, gen_amp=gen_amp, gen_d=gen_d, gen_idx=gen_idx, gen_amt=gen_amt)
