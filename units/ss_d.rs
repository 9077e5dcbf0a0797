//@ root math/src
//@ include prelude.rs
//@ include seqlib.rs
//@ include ss_solve.inc.rs
//@ include ss_loops.inc.rs
//@ include ss_base.inc.rs
//@ include ss_core_d.inc.rs
/// the order of the reserves does not matter
proof fn c11_order(a: Seq<int>, b: Seq<int>, amp: int, iters: int)
    requires a.to_multiset() =~= b.to_multiset(),
    ensures spec_d(a, amp, iters) == spec_d(b, amp, iters),
{ lem_live_perm(a, b); }
pub open spec fn pw(x: int, k: int) -> int decreases k { if k <= 0 { 1 } else { x * pw(x, k - 1) } }
pub open spec fn prod(s: Seq<int>, k: int) -> int decreases k { if k <= 0 { 1 } else { prod(s, k - 1) * s[k - 1] } }
proof fn lem_pw_pos(x: int, k: int) requires x >= 0 ensures pw(x, k) >= 0, x > 0 ==> pw(x, k) > 0 decreases k
{ if k > 0 { lem_pw_pos(x, k - 1); assert(x * pw(x, k - 1) >= 0 && (x > 0 && pw(x, k - 1) > 0 ==> x * pw(x, k - 1) > 0)) by (nonlinear_arith) requires x >= 0, pw(x, k - 1) >= 0; } }
proof fn lem_prod_pos(s: Seq<int>, k: int) requires 0 <= k <= s.len(), bnd(s), noz(s) ensures prod(s, k) > 0 decreases k
{ if k > 0 { lem_prod_pos(s, k - 1); assert(prod(s, k - 1) * s[k - 1] > 0) by (nonlinear_arith) requires prod(s, k - 1) > 0, s[k - 1] > 0; } }
/// the truncated products never exceed the exact ones: fold * n^k * prod(s) <= d^(k+1)
proof fn lem_fold_ub(d: int, n: int, s: Seq<int>, k: int)
    requires 0 <= k <= s.len(), 0 <= d, n > 0, bnd(s), noz(s), fold(d, n, s, k) is Some,
    ensures fold(d, n, s, k)->0 * (pw(n, k) * prod(s, k)) <= pw(d, k + 1),
    decreases k,
{
    if k > 0 {
        lem_fold_ub(d, n, s, k - 1); lem_fold_pos(d, n, s, k - 1);
        let c = fold(d, n, s, k - 1)->0; let q = pw(n, k - 1) * prod(s, k - 1); let den = s[k - 1] * n; let c2 = fold(d, n, s, k)->0;
        lem_pw_pos(n, k - 1); lem_prod_pos(s, k - 1); lem_pw_pos(d, k);
        lem_pos(c, d); lem_pos(pw(n, k - 1), prod(s, k - 1));
        assert(den > 0) by (nonlinear_arith) requires s[k - 1] > 0, n > 0, den == s[k - 1] * n;
        lem_div(c * d, den);
        assert(pw(n, k) * prod(s, k) == den * q) by (nonlinear_arith) requires pw(n, k) == n * pw(n, k - 1), prod(s, k) == prod(s, k - 1) * s[k - 1], den == s[k - 1] * n, q == pw(n, k - 1) * prod(s, k - 1);
        assert(c2 * (den * q) <= d * pw(d, k)) by (nonlinear_arith) requires c2 * den <= c * d, c * q <= pw(d, k), d >= 0, q >= 0;
    } else { assert(pw(d, 1) == d * pw(d, 0)); }
}
/// (d+1)^m >= d^m + m d^(m-1)
proof fn lem_bern(d: int, m: int)
    requires d >= 0, m >= 1,
    ensures pw(d + 1, m) >= pw(d, m) + m * pw(d, m - 1),
    decreases m,
{
    if m == 1 { assert(pw(d + 1, 1) == (d + 1) * pw(d + 1, 0)); assert(pw(d, 1) == d * pw(d, 0)); } else {
        lem_bern(d, m - 1); lem_pw_pos(d, m - 2); lem_pw_pos(d, m - 1);
        let a = pw(d + 1, m - 1); let b = pw(d, m - 1); let c = pw(d, m - 2);
        assert(b == d * c);
        assert((d + 1) * a >= d * b + m * b) by (nonlinear_arith) requires a >= b + (m - 1) * c, b == d * c, d >= 0, c >= 0, m >= 2;
    }
}
/// the last Newton step lands on or above the root of the exact invariant equation
proof fn lem_dstep(d: int, z: int, ann: int, n: int, s: Seq<int>)
    requires dstep(d, ann, n, s) == Some(z), conv(d, z), n == s.len(), n > 0, d >= 0, bnd(s), noz(s),
    ensures pw(z, n + 1) + (ann - 1) * z * (pw(n, n) * prod(s, n)) >= ann * sum(s, n) * (pw(n, n) * prod(s, n)),
{
    let t = sum(s, n); let p = fold(d, n, s, n)->0; let g = pw(n, n) * prod(s, n);
    let num = (ann * t + p * n) * d; let den = (ann - 1) * d + (n + 1) * p;
    lem_fold_pos(d, n, s, n); lem_fold_ub(d, n, s, n); lem_sum(s, n); lem_pw_pos(n, n); lem_prod_pos(s, n); lem_pw_pos(d, n); lem_pw_pos(d, n + 1); lem_pos(pw(n, n), prod(s, n));
    let dn = pw(d, n); assert(pw(d, n + 1) == d * dn);
    lem_pos(ann - 1, d); lem_pos(n + 1, p);
    lem_div(num, den);
    assert(z * den >= num) by (nonlinear_arith) requires num < (num / den) * den + den, z == num / den + 2, den > 0;
    lem_bern(d, n + 1);
    if d == 0 {
        // only with an empty step, den == (n+1) p and p == 0
        lem_fold_zero(n, s, n);
        assert(false) by { assert((ann - 1) * 0 == 0); }
    } else {
        let e = z - d;
        assert(pw(z, n + 1) >= pw(d, n + 1) + (n + 1) * dn * e) by { assert((n + 1) * dn * 1 == (n + 1) * dn && (n + 1) * dn * 0 == 0); }
        // z*den >= num, multiplied by g, with p*g <= d*dn
        assert(z * ((ann - 1) * d + (n + 1) * p) - (ann * t + p * n) * d == d * ((ann - 1) * z - ann * t) + p * ((n + 1) * z - n * d)) by (nonlinear_arith);
        let m = (n + 1) * z - n * d;
        assert(m == d + (n + 1) * e && m >= 0) by (nonlinear_arith) requires m == (n + 1) * z - n * d, e == z - d, e == 0 || e == 1, d >= 0, n > 0;
        let h = (ann - 1) * z - ann * t;
        assert(d * h + p * m >= 0);
        assert(d * h * g + p * m * g >= 0) by (nonlinear_arith) requires d * h + p * m >= 0, g >= 0;
        assert(p * m * g <= d * dn * m) by (nonlinear_arith) requires p * g <= d * dn, m >= 0;
        assert(d * (h * g + dn * m) >= 0) by (nonlinear_arith) requires d * h * g + p * m * g >= 0, p * m * g <= d * dn * m;
        assert(h * g + dn * m >= 0) by (nonlinear_arith) requires d * (h * g + dn * m) >= 0, d > 0;
        assert(dn * m == d * dn + (n + 1) * dn * e) by (nonlinear_arith) requires m == d + (n + 1) * e;
        assert(h * g == (ann - 1) * z * g - ann * t * g) by (nonlinear_arith) requires h == (ann - 1) * z - ann * t;
    }
}
proof fn lem_fold_zero(n: int, s: Seq<int>, k: int)
    requires 0 <= k <= s.len(), n > 0, bnd(s), noz(s),
    ensures fold(0, n, s, k) == Some(0int),
    decreases k,
{ if k > 0 { lem_fold_zero(n, s, k - 1); assert(s[k - 1] * n > 0) by (nonlinear_arith) requires s[k - 1] > 0, n > 0; lem_div_zero(s[k - 1] * n); assert(0 < p256()) by (compute); assert(0int * 0int == 0); } }
proof fn lem_div_zero(d: int) requires d > 0 ensures 0int / d == 0 { lem_div(0, d); assert(0int / d == 0) by (nonlinear_arith) requires 0 <= d * 1, 0int / d * d <= 0, 0 < (0int / d) * d + d, d > 0; }
/// k-th Newton iterate settles
pub open spec fn settles(d: int, ann: int, n: int, s: Seq<int>, k: int) -> bool decreases k {
    k > 0 && match dstep(d, ann, n, s) { None => false, Some(z) => conv(d, z) || settles(z, ann, n, s, k - 1) }
}
proof fn lem_diter(d: int, ann: int, n: int, s: Seq<int>, k: int)
    requires settles(d, ann, n, s, k), n == s.len(), n > 0, d >= 0, bnd(s), noz(s),
    ensures ({ let z = diter(d, ann, n, s, k); z is Some && pw(z->0, n + 1) + (ann - 1) * z->0 * (pw(n, n) * prod(s, n)) >= ann * sum(s, n) * (pw(n, n) * prod(s, n)) }),
    decreases k,
{
    let z = dstep(d, ann, n, s)->0;
    if conv(d, z) { lem_dstep(d, z, ann, n, s); } else {
        lem_fold_pos(d, n, s, n); lem_sum(s, n); let p = fold(d, n, s, n)->0; let num = (ann * sum(s, n) + p * n) * d; let den = (ann - 1) * d + (n + 1) * p;
        lem_pos(ann, sum(s, n)); lem_pos(p, n); lem_pos(ann * sum(s, n) + p * n, d); lem_pos(ann - 1, d); lem_pos(n + 1, p); lem_div_pos(num, den);
        lem_diter(z, ann, n, s, k - 1);
    }
}
/// a settled invariant is never below the exact solution of  A*n*S + D = A*n*D + D^(n+1)/(n^n prod)
proof fn c11_not_below(xp: Seq<int>, amp: int, iters: int)
    requires bnd(xp), noz(xp), xp.len() > 0, spec_d(xp, amp, iters) is Some,
        ({ let s = live(xp)->0; settles(sum(s, s.len() as int), amp * s.len(), s.len() as int, s, iters) }),
    ensures ({
        let s = live(xp)->0; let n = s.len() as int; let ann = amp * n; let d = spec_d(xp, amp, iters)->0;
        pw(d, n + 1) + (ann - 1) * d * (pw(n, n) * prod(s, n)) >= ann * sum(s, n) * (pw(n, n) * prod(s, n)) }),
{
    lem_srt_b(xp); let s = live(xp)->0; let n = s.len() as int; lem_sum(s, n); lem_sum_pos(s, n);
    lem_diter(sum(s, n), amp * n, n, s, iters);
}
/// an empty pool has no invariant value, a partly empty one is refused
proof fn c11_zero(a: Seq<int>, amp: int, iters: int)
    requires bnd(a), 0 <= amp <= u128::MAX,
    ensures a.len() > 0 && allz(a) ==> spec_d(a, amp, iters) == Some(0int), !allz(a) && !noz(a) ==> spec_d(a, amp, iters) is None,
{ if a.len() > 0 { assert(a[0] == a[0]); if allz(a) { assert(a[0] == 0); assert(!noz(a)); } } assert(sum(Seq::<int>::empty(), 0) == 0); }
}
fn main(){}
