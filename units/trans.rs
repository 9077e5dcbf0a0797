//@ root math/src
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ include fx127.rs
//@ include trans.inc.rs
/// x multiplied by itself k-1 times
pub open spec fn xp(x: int, k: int) -> Option<int> decreases k { if k <= 1 { Some(x) } else { match xp(x, k - 1) { Some(a) => fit(mul127(a, x)), None => None } } }
//@ fn math/src/transcendental.rs::powi(operand, exponent)
//@ meta gen.exponent=g.num(300)
//@ meta inst=::<fixed::types::U1F127, fixed::types::U1F127>
//@ generics
//@ attr #[verifier::allow_complex_invariants]
//@ ensures (match r { Ok(v) => Some(v@), Err(_) => None }) == (if operand@ == 0 { Some(0) } else if exponent == 0 { Some(one127()) } else { xp(operand@, exponent as int) })
//@ pre broadcast use vxr;
//@ loop 0
//@ invariant_except_break $r == Some($a), exponent >= 2, $k >= 1, xp(operand@, $k as int) == Some($a@),
//@ invariant exponent >= 2, ensures (match $r { Some(x) => xp(operand@, exponent as int) == Some(x@), None => xp(operand@, exponent as int) is None }),
//@ loop-start 0
//@ broadcast use vxr; proof { lem_xp_none(operand@, $k + 1, exponent as int); }
//@ end
proof fn lem_xp_none(x: int, a: int, b: int) requires 1 <= a <= b ensures xp(x, a) is None ==> xp(x, b) is None decreases b - a { if a < b { lem_xp_none(x, a, b - 1); } }
// ---- accuracy, over the reals
pub open spec fn o() -> real { one127() as real }
pub open spec fn rp(y: real, n: int) -> real decreases n { if n <= 0 { 1real } else { y * rp(y, n - 1) } }
proof fn lem_rp(y: real, n: int) requires 0real <= y <= 1real ensures 0real <= rp(y, n) <= 1real decreases n
{ if n > 0 { lem_rp(y, n - 1); let z = rp(y, n - 1); assert(0real <= y * z <= 1real) by (nonlinear_arith) requires 0real <= y <= 1real, 0real <= z <= 1real; } }
proof fn lem_rp_add(y: real, a: int, b: int) requires a >= 0, b >= 0 ensures rp(y, a + b) == rp(y, a) * rp(y, b) decreases b
{ if b > 0 { lem_rp_add(y, a, b - 1); let p = rp(y, a); let q = rp(y, b - 1); assert(y * (p * q) == p * (y * q)) by (nonlinear_arith); assert(rp(y, a + b) == y * rp(y, a + b - 1)); } else { let p = rp(y, a); assert(p * 1real == p) by (nonlinear_arith); } }
/// a is below one*ar by at most e
pub open spec fn apx(a: int, ar: real, e: int) -> bool { 0 <= a <= one127() && 0real <= ar <= 1real && (a as real) <= o() * ar && o() * ar <= (a as real) + (e as real) }
proof fn lem_apx_mul(a: int, ar: real, ea: int, b: int, br: real, eb: int)
    requires apx(a, ar, ea), apx(b, br, eb), ea >= 0, eb >= 0,
    ensures apx(smul(a, b), ar * br, ea + eb + 1),
{
    assert(0 <= a * b <= one127() * one127()) by (nonlinear_arith) requires 0 <= a <= one127(), 0 <= b <= one127();
    lem_div(a * b, one127()); lem_div_pos(a * b, one127());
    let s = mul127(a, b);
    assert(s <= one127()) by (nonlinear_arith) requires s * one127() <= a * b, a * b <= one127() * one127(), one127() > 0;
    assert(smul(a, b) == s);
    let (x, y, z) = (a as real, b as real, s as real); let w = o();
    assert(z * w <= x * y && x * y <= z * w + w) by {
        lem_itr(s, one127()); lem_itr(a, b);
        assert(((s * one127() + one127()) as real) == z * w + w);
    }
    let (e, f) = (ea as real, eb as real);
    assert(0real <= ar * br <= 1real) by (nonlinear_arith) requires 0real <= ar <= 1real, 0real <= br <= 1real;
    let p = w * ar; let q = w * br;
    assert(x <= w && y <= w && q <= w && 0real <= x && 0real <= y) by { assert(w * br <= w) by (nonlinear_arith) requires br <= 1real, w > 0real; }
    assert(x * y <= p * q) by (nonlinear_arith) requires 0real <= x <= p, 0real <= y <= q;
    assert(p * q <= x * y + e * w + w * f) by (nonlinear_arith) requires p <= x + e, q <= y + f, 0real <= x <= w, 0real <= q <= w, e >= 0real, f >= 0real, x <= p, y <= q;
    assert(p * q == w * (w * (ar * br))) by (nonlinear_arith) requires p == w * ar, q == w * br;
    let g = w * (ar * br);
    assert(z <= g) by (nonlinear_arith) requires z * w <= w * g, w > 0real;
    assert(g <= z + e + f + 1real) by (nonlinear_arith) requires w * g <= z * w + w + e * w + w * f, w > 0real;
}
proof fn lem_spw(y: real, r: int, a: int, v: int, k: int, e: int)
    requires apx(r, rp(y, a), a), apx(v, rp(y, k), k - 1), a >= 0, k >= 1, e >= 0,
    ensures apx(spw(r, v, e), rp(y, a + k * e), a + k * e),
    decreases e,
{
    if e > 0 {
        lem_apx_mul(r, rp(y, a), a, v, rp(y, k), k - 1); lem_rp_add(y, a, k);
        lem_apx_mul(v, rp(y, k), k - 1, v, rp(y, k), k - 1); lem_rp_add(y, k, k);
        let h = e / 2;
        if e % 2 == 1 { assert(a + k + (2 * k) * h == a + k * e) by (nonlinear_arith) requires e == 2 * h + 1; lem_spw(y, smul(r, v), a + k, smul(v, v), 2 * k, h); }
        else { assert(a + (2 * k) * h == a + k * e) by (nonlinear_arith) requires e == 2 * h; lem_spw(y, r, a, smul(v, v), 2 * k, h); }
    } else { assert(k * 0 == 0); }
}
/// partial sums of the binomial series of (1-c)^n
pub open spec fn bs(c: real, n: int, m: int) -> real decreases n { if m < 0 { 0real } else if n <= 0 { 1real } else { bs(c, n - 1, m) - c * bs(c, n - 1, m - 1) } }
/// signed terms
pub open spec fn bt(c: real, n: int, k: int) -> real { bs(c, n, k) - bs(c, n, k - 1) }
proof fn lem_bonf(c: real, n: int, m: int)
    requires 0real <= c <= 1real, n >= 0, m >= -1,
    ensures m % 2 == 0 ==> bs(c, n, m) >= rp(1real - c, n), m % 2 != 0 ==> bs(c, n, m) <= rp(1real - c, n), m >= n ==> bs(c, n, m) == rp(1real - c, n),
    decreases n,
{
    lem_rp(1real - c, n);
    if m >= 0 && n > 0 {
        lem_bonf(c, n - 1, m); lem_bonf(c, n - 1, m - 1);
        let z = rp(1real - c, n - 1); let a = bs(c, n - 1, m); let b = bs(c, n - 1, m - 1);
        assert((1real - c) * z == z - c * z) by (nonlinear_arith);
        if m % 2 == 0 { assert((m - 1) % 2 != 0); assert(c * b <= c * z) by (nonlinear_arith) requires b <= z, 0real <= c; }
        else { assert((m - 1) % 2 == 0); assert(c * b >= c * z) by (nonlinear_arith) requires b >= z, 0real <= c; }
    }
}
proof fn lem_bt(c: real, n: int, k: int)
    requires n >= 0, k >= 1,
    ensures (k as real) * bt(c, n, k) == -(((n - k + 1) as real) * (c * bt(c, n, k - 1))), k == 1 ==> bt(c, n, 0) == 1real,
    decreases n,
{
    if n == 0 {
        assert(bs(c, 0, k) == 1real && bs(c, 0, k - 1) == 1real);
        if k == 1 { assert(((0 - 1 + 1) as real) == 0real); let z = c * bt(c, 0, 0); assert(0real * z == 0real) by (nonlinear_arith); let kk = k as real; assert(kk * 0real == 0real) by (nonlinear_arith); }
        else { assert(bt(c, 0, k - 1) == 0real) by { assert(bs(c, 0, k - 2) == 1real); } let kk = k as real; let m = (n - k + 1) as real; assert(kk * 0real == 0real && m * (c * 0real) == 0real) by (nonlinear_arith); }
    } else {
        lem_bt(c, n - 1, k);
        let (p, q) = (bt(c, n - 1, k), bt(c, n - 1, k - 1));
        assert(bt(c, n, k) == p - c * q) by { let (x, y) = (bs(c, n - 1, k - 1), bs(c, n - 1, k - 2)); assert(c * (x - y) == c * x - c * y) by (nonlinear_arith); if k == 1 { assert(bs(c, n, 0) == bs(c, n - 1, 0) - c * bs(c, n - 1, -1)); assert(bs(c, n - 1, -1) == 0real); } }
        let (kk, nn) = (k as real, n as real);
        assert((n - 1 - k + 1) as real == nn - kk && (n - k + 1) as real == nn - kk + 1real);
        let w = c * q;
        assert(kk * (p - w) == -(nn * w)) by { assert(kk * (p - w) == kk * p - kk * w) by (nonlinear_arith); assert((nn - kk) * w == nn * w - kk * w) by (nonlinear_arith); }
        if k == 1 {
            assert(bt(c, n, 0) == bt(c, n - 1, 0)) by { assert(c * 0real == 0real) by (nonlinear_arith); assert(bs(c, n - 1, -1) == 0real && bs(c, n, -1) == 0real && bs(c, n - 1, -2) == 0real); }
        } else {
            lem_bt(c, n - 1, k - 1);
            let s = bt(c, n - 1, k - 2);
            assert(bt(c, n, k - 1) == q - c * s) by { let (x, y) = (bs(c, n - 1, k - 2), bs(c, n - 1, k - 3)); assert(c * (x - y) == c * x - c * y) by (nonlinear_arith); if k == 2 { assert(bs(c, n - 1, -1) == 0real); } }
            assert((n - 1 - (k - 1) + 1) as real == nn - kk + 1real && (k - 1) as real == kk - 1real);
            let v = c * s; let h = nn - kk + 1real;
            assert(h * (c * (q - v)) == nn * w) by {
                assert(h * (c * (q - v)) == c * (h * q - h * v)) by (nonlinear_arith);
                assert(h * q == nn * q - kk * q + q) by (nonlinear_arith) requires h == nn - kk + 1real;
                assert((kk - 1real) * q == kk * q - q) by (nonlinear_arith);
                assert(h * q - h * v == nn * q);
                assert(c * (nn * q) == nn * w) by (nonlinear_arith) requires w == c * q;
            }
        }
    }
}
proof fn lem_itr(a: int, b: int) ensures (a * b) as real == (a as real) * (b as real) { assert((a * b) as real == (a as real) * (b as real)) by (nonlinear_arith); }
/// unsigned terms
pub open spec fn ta(c: real, n: int, k: int) -> real { if k % 2 == 0 { bt(c, n, k) } else { -bt(c, n, k) } }
proof fn lem_term_apx(c: int, cr: real, n: int, i: int, t: int)
    requires n >= 2, 0 <= c, c * n < one127(), o() * cr == c as real, 1 <= i <= n, apx(t, ta(cr, n, i - 1), 4), i == 1 ==> t == one127(),
    ensures apx(mul127(t, tfac(c, n, i)), ta(cr, n, i), 4),
{
    lem_term(t, c, n, i); lem_bt(cr, n, i);
    let b = c * (n - i + 1); let f = tfac(c, n, i); let u = mul127(t, f);
    lem_div(b, i); lem_div(t * f, one127());
    let p = ta(cr, n, i - 1); let q = ta(cr, n, i); let w = o(); let k = i as real; let m = (n - i + 1) as real; let (tr, fr, ur, br) = (t as real, f as real, u as real, b as real);
    lem_itr(c, n - i + 1); lem_itr(u, one127()); lem_itr(t, f); lem_itr(f, i);
    assert(k * q == m * (cr * p)) by { let (x, y) = (bt(cr, n, i), bt(cr, n, i - 1)); if i % 2 == 0 { assert(p == -y && q == x); assert(-(m * (cr * y)) == m * (cr * (-y))) by (nonlinear_arith); } else { assert(p == y && q == -x); assert(k * (-x) == -(k * x)) by (nonlinear_arith); } }
    // br = w * m * cr, fr * k <= br < fr*k + k
    assert(br == w * (m * cr)) by { assert((w * cr) * m == w * (m * cr)) by (nonlinear_arith); }
    assert(fr * k <= br && br <= fr * k + k) by { assert((f * i + i) as real == fr * k + k); }
    assert(ur * w <= tr * fr && tr * fr <= ur * w + w) by { assert((u * one127() + one127()) as real == ur * w + w); }
    assert(br < w && fr < w && 0real <= fr && 0real <= br && 0real <= tr && 0real <= ur);
    assert(w * (k * q) == br * p) by { assert(w * (m * (cr * p)) == (w * (m * cr)) * p) by (nonlinear_arith); }
    let g = w * q; let z = w * p;
    assert(k * g == br * p) by { assert(w * (k * q) == k * (w * q)) by (nonlinear_arith); }
    assert(k * (g * w) == br * z) by { assert(k * (g * w) == (k * g) * w) by (nonlinear_arith); assert((br * p) * w == br * (w * p)) by (nonlinear_arith); }
    assert(k >= 1real);
    // lower
    assert(tr * fr * k <= br * z) by (nonlinear_arith) requires fr * k <= br, 0real <= tr <= z, 0real <= fr, k >= 1real, br >= 0real;
    assert(ur * w * k <= br * z) by (nonlinear_arith) requires ur * w <= tr * fr, tr * fr * k <= br * z, k >= 1real;
    assert(ur <= g) by (nonlinear_arith) requires ur * w * k <= k * (g * w), w > 0real, k >= 1real;
    // upper
    let e = z - tr;
    assert(br * z <= tr * fr * k + tr * k + br * e) by (nonlinear_arith) requires br <= fr * k + k, z == tr + e, tr >= 0real, br >= 0real;
    assert(tr * fr * k <= ur * w * k + w * k) by (nonlinear_arith) requires tr * fr <= ur * w + w, k >= 1real;
    assert(tr * k <= w * k) by (nonlinear_arith) requires tr <= w, k >= 1real;
    assert(g <= ur + 4real) by {
        assert(br * e <= w * e) by (nonlinear_arith) requires br <= w, e >= 0real;
        if i == 1 {
            assert(e == 0real) by { assert(p == 1real) by { assert(bt(cr, n, 0) == 1real); } assert(w * 1real == w); }
            assert(g <= ur + 4real) by (nonlinear_arith) requires k * (g * w) <= ur * w * k + w * k + w * k + w * e, e == 0real, k >= 1real, w > 0real;
        } else {
            assert(k >= 2real);
            assert(w * e <= (w * 2real) * k) by (nonlinear_arith) requires e <= 4real, k >= 2real, w > 0real;
            assert(g <= ur + 4real) by (nonlinear_arith) requires k * (g * w) <= ur * w * k + w * k + w * k + (w * 2real) * k, k >= 1real, w > 0real;
        }
    }
    let cc = c as real; assert(cr >= 0real) by (nonlinear_arith) requires w * cr == cc, cc >= 0real, w > 0real;
    assert(0real <= q) by (nonlinear_arith) requires k * q == m * (cr * p), m >= 0real, cr >= 0real, p >= 0real, k >= 1real;
    assert(q <= 1real) by (nonlinear_arith) requires w * (k * q) == br * p, br <= w, 0real <= p <= 1real, k >= 1real, w > 0real, br >= 0real, q >= 0real;
    assert(u <= one127()) by { if u > one127() { assert(u * i >= u) by (nonlinear_arith) requires i >= 1, u >= 0; } }
}
proof fn lem_ser(c: int, cr: real, n: int, i: int, t: int, pos: int, neg: int)
    requires n >= 2, 0 <= c, c * n < one127(), o() * cr == c as real, 0real <= cr <= 1real, 1 <= i <= n, i <= 32, apx(t, ta(cr, n, i - 1), 4), i == 1 ==> t == one127(),
        -((4 * (i - 1)) as real) <= ((pos - neg) as real) - o() * bs(cr, n, i - 1) <= (4 * (i - 1)) as real,
    ensures ser(c, n, i, t, pos, neg) is Some ==> -128real <= (ser(c, n, i, t, pos, neg)->0 as real) - o() * rp(1real - cr, n) <= 128real,
    decreases 32 - i,
{
    if i < 32 {
        lem_term_apx(c, cr, n, i, t);
        let u = mul127(t, tfac(c, n, i));
        let p = if i % 2 == 0 { pos + u } else { pos };
        let m = if i % 2 == 0 { neg } else { neg + u };
        let w = o(); let (s, s0, x) = (bs(cr, n, i), bs(cr, n, i - 1), rp(1real - cr, n));
        let tt = ta(cr, n, i);
        assert(w * s == w * s0 + (if i % 2 == 0 { w * tt } else { -(w * tt) })) by {
            if i % 2 == 0 { assert(s == s0 + tt); assert(w * (s0 + tt) == w * s0 + w * tt) by (nonlinear_arith); }
            else { assert(s == s0 - tt); assert(w * (s0 - tt) == w * s0 - w * tt) by (nonlinear_arith); }
        }
        assert((p - m) as real == ((pos - neg) as real) + (if i % 2 == 0 { u as real } else { -(u as real) }));
        assert((4 * i) as real == ((4 * (i - 1)) as real) + 4real);
        assert((4 * i) as real <= 124real);
        lem_bonf(cr, n, i); lem_bonf(cr, n, i - 1);
        if i >= n || u == 0 {
            if i < n {
                // the true value lies between the last two partial sums
                if i % 2 == 0 { assert((i - 1) % 2 != 0); assert(w * s0 <= w * x && w * x <= w * s) by (nonlinear_arith) requires s0 <= x <= s, w > 0real; }
                else { assert((i - 1) % 2 == 0); assert(w * s <= w * x && w * x <= w * s0) by (nonlinear_arith) requires s <= x <= s0, w > 0real; }
                assert(w * tt <= 4real);
            }
        } else { lem_ser(c, cr, n, i + 1, u, p, m); }
    }
}
/// the computed power is the true one to within max(n, 128) units in the last place (2^-127), and is at most one
proof fn c39_power(x: int, n: int)
    requires 0 <= x <= one127(), n >= 0,
    ensures 0 <= powhp(x, n) <= one127(), x > 0 ==> -128real <= o() * rp(x as real / o(), n) - (powhp(x, n) as real) <= (imax(n, 128) as real),
{
    let y = x as real / o();
    assert(o() * y == x as real) by (nonlinear_arith) requires y == x as real / o(), o() > 0real;
    assert(0real <= y <= 1real) by (nonlinear_arith) requires o() * y == x as real, 0real <= x as real <= o(), o() > 0real;
    assert(rp(y, 0) == 1real && o() * 1real == o());
    assert(rp(y, 1) == y) by { assert(rp(y, 1) == y * rp(y, 0)); assert(y * 1real == y) by (nonlinear_arith); }
    lem_spw(y, one127(), 0, x, 1, n);
    if n >= 2 && one127() / n > one127() - x {
        let c = one127() - x; let cr = 1real - y;
        lem_div(one127(), n); let q = one127() / n;
        assert(c * n < one127()) by (nonlinear_arith) requires q > c, q * n <= one127(), n > 0;
        assert(o() * cr == c as real) by { assert(o() * (1real - y) == o() - o() * y) by (nonlinear_arith); }
        lem_bt(cr, n, 1);
        assert(bs(cr, n, 0) == 1real) by { assert(bs(cr, n, -1) == 0real); }
        assert(1real - cr == y);
        lem_ser(c, cr, n, 1, one127(), one127(), 0);
        lem_ser_range(c, n, 1, one127(), one127(), 0);
    }
    if n >= 2 && (one127() / 10) / n > one127() - x { lem_div_pos(one127(), 10); lem_div_mono(one127() / 10, one127(), n); assert(one127() / n > one127() - x); }
}
}
fn main(){}
