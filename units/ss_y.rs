//@ root math/src
//@ include prelude.rs
//@ include seqlib.rs
//@ include ss_solve.inc.rs
//@ include ss_loops.inc.rs
//@ include ss_base.inc.rs
//@ include ss_core_y.inc.rs
// ---------------------------------------------------------------- property lemmas
/// every Newton step lands on or above the positive root of y*y + (b-d)*y = c
proof fn lem_ystep(y: int, c: int, b: int, d: int)
    requires ystep(y, c, b, d) is Some,
    ensures ({ let z = ystep(y, c, b, d)->0; z * z + (b - d) * z >= c }),
{
    let num = y * y + c; let den = 2 * y + b - d; let z = ystep(y, c, b, d)->0;
    lem_div(num, den);
    assert(z * den >= num) by (nonlinear_arith) requires num < (num / den) * den + den, z == num / den + 2, den > 0;
    assert(z * z + (b - d) * z >= c) by (nonlinear_arith) requires z * den >= num, num == y * y + c, den == 2 * y + (b - d);
}
proof fn lem_yiter(y: int, c: int, b: int, d: int, k: int)
    requires yiter(y, c, b, d, k) is Some, k > 0 || y * y + (b - d) * y >= c,
    ensures ({ let z = yiter(y, c, b, d, k)->0; z * z + (b - d) * z >= c }),
    decreases k,
{
    if k > 0 { lem_ystep(y, c, b, d); let z = ystep(y, c, b, d)->0; if !conv(y, z) { lem_yiter(z, c, b, d, k - 1); } }
}
/// the solved reserve never lies below the exact solution for the (integer) invariant equation
proof fn c10_not_below(xp: Seq<int>, d: int, amp: int, iters: int)
    requires spec_y(xp, d, amp, iters) is Some, iters > 0,
    ensures ({
        let y = spec_y(xp, d, amp, iters)->0; let s = live(xp)->0; let n = s.len() as int + 1; let ann = amp * n;
        y * y + (sum(s, s.len() as int) + d / ann - d) * y >= yc(d, ann, n, s)->0 }),
{
    let s = live(xp)->0; let n = s.len() as int + 1; let ann = amp * n; let c = yc(d, ann, n, s)->0;
    lem_yiter(d, c, sum(s, s.len() as int) + d / ann, d, iters);
}
/// the order of the reserves does not matter
proof fn c10_order(a: Seq<int>, b: Seq<int>, d: int, amp: int, iters: int)
    requires a.to_multiset() =~= b.to_multiset(),
    ensures spec_y(a, d, amp, iters) == spec_y(b, d, amp, iters),
{ lem_live_perm(a, b); }
/// a settled solution is at most two units above the exact one
pub open spec fn ysettles(y: int, c: int, b: int, d: int, k: int) -> bool decreases k {
    k > 0 && match ystep(y, c, b, d) { None => false, Some(z) => conv(y, z) || ysettles(z, c, b, d, k - 1) }
}
proof fn lem_ytight(y: int, c: int, b: int, d: int, k: int)
    requires ysettles(y, c, b, d, k),
    ensures ({ let z = yiter(y, c, b, d, k); z is Some && (z->0 - 2) * (z->0 - 2) + (b - d) * (z->0 - 2) <= c + 4 }),
    decreases k,
{
    let num = y * y + c; let den = 2 * y + b - d; let z = ystep(y, c, b, d)->0;
    if conv(y, z) {
        lem_div(num, den);
        assert((z - 2) * den <= num) by (nonlinear_arith) requires (num / den) * den <= num, z == num / den + 2, den > 0;
        assert((z - 2) * (z - 2) + (b - d) * (z - 2) <= c + 4) by (nonlinear_arith) requires (z - 2) * den <= num, num == y * y + c, den == 2 * y + (b - d), z == y || z == y + 1;
    } else { lem_ytight(z, c, b, d, k - 1); }
}
proof fn c10_tight(xp: Seq<int>, d: int, amp: int, iters: int)
    requires spec_y(xp, d, amp, iters) is Some,
        ({ let s = live(xp)->0; let n = s.len() as int + 1; let ann = amp * n; ysettles(d, yc(d, ann, n, s)->0, sum(s, s.len() as int) + d / ann, d, iters) }),
    ensures ({
        let y = spec_y(xp, d, amp, iters)->0 - 2; let s = live(xp)->0; let n = s.len() as int + 1; let ann = amp * n;
        y * y + (sum(s, s.len() as int) + d / ann - d) * y <= yc(d, ann, n, s)->0 + 4 }),
{
    let s = live(xp)->0; let n = s.len() as int + 1; let ann = amp * n;
    lem_ytight(d, yc(d, ann, n, s)->0, sum(s, s.len() as int) + d / ann, d, iters);
}
}
fn main(){}
