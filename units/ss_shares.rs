//@ root math/src
//@ include prelude.rs
//@ include fixed.rs
//@ include seqlib.rs
//@ include ss_solve.inc.rs
//@ include ss_loops.inc.rs
//@ include ss_base.inc.rs
//@ include ss_core_d.inc.rs
//@ include ss_norm.inc.rs
//@ include ss_lfee.inc.rs
//@ include ss_share.inc.rs
/// shares are minted in proportion to the growth of the fee-adjusted invariant, rounded down: the invariant behind one share never falls
proof fn c13_mint(a: Seq<AssetReserve>, b: Seq<AssetReserve>, amp: int, issuance: int, fee: int, di: int)
    requires issuance > 0, 0 <= fee <= 1_000_000, spec_shares(a, b, amp, issuance, fee, di) is Some, a.len() <= u64::MAX,
    ensures ({ let m = spec_shares(a, b, amp, issuance, fee, di)->0; let d0 = spec_d(norms(a), amp, di)->0; let d1 = spec_d(norms(b), amp, di)->0 - 2; let d2 = spec_d(lfs(a, b, d0, d1, lfee(fee, a.len() as int)), amp, di)->0;
        0 <= m && m * d0 <= issuance * (d2 - d0) && d0 > 0 && issuance * d2 >= (issuance + m) * d0 }),
{
    let m = spec_shares(a, b, amp, issuance, fee, di)->0; let d0 = spec_d(norms(a), amp, di)->0; let d1 = spec_d(norms(b), amp, di)->0 - 2; let d2 = spec_d(lfs(a, b, d0, d1, lfee(fee, a.len() as int)), amp, di)->0;
    let x = issuance * (d2 - d0);
    lem_div(x, d0);
    assert(0 <= x) by (nonlinear_arith) requires x == issuance * (d2 - d0), issuance > 0, d2 >= d0;
    lem_div_pos(x, d0);
    assert(m * d0 <= x && issuance * d2 >= (issuance + m) * d0) by (nonlinear_arith) requires d0 * m <= x, x == issuance * (d2 - d0);
}
/// a mint or burn never credits a reserve with more than it holds: the fee only ever lowers the adjusted reserves
proof fn c13_fee_lowers(a: Seq<AssetReserve>, b: Seq<AssetReserve>, k: int, d0: int, d1: int, f: int)
    requires 0 <= f <= d18(), lf(a, b, k, d0, d1, f) is Some,
    ensures 0 <= lf(a, b, k, d0, d1, f)->0 <= b[k].amount, f == 0 ==> lf(a, b, k, d0, d1, f)->0 == b[k].amount,
{ lem_fees18(f, 2); let e = iabs(b[k].amount - (d1 * a[k].amount) / d0); assert(0 <= (f * e) / d18()); if f == 0 { assert(f * e == 0) by (nonlinear_arith) requires f == 0; assert(0int / d18() == 0) by (compute); } }
/// withdrawing an exact amount burns at least the proportional loss of the invariant, and at least one share
proof fn c13_burn(a: Seq<AssetReserve>, i: int, amount: int, amp: int, issuance: int, fee: int, di: int)
    requires 0 <= i, issuance >= 0, 0 <= amount, 0 <= fee <= 1_000_000, spec_shares_for(a, i, amount, amp, issuance, fee, di) is Some,
    ensures ({ let m = spec_shares_for(a, i, amount, amp, issuance, fee, di)->0; let b = a.update(i, AssetReserve { amount: (a[i].amount - amount) as u128, decimals: a[i].decimals });
        let d0 = spec_d(norms(a), amp, di)->0; let d1 = spec_d(norms(b), amp, di)->0; let d2 = spec_d(lfs(a, b, d0, d1, lfee(fee, a.len() as int)), amp, di)->0;
        m >= 1 && m * d0 >= issuance * (d0 - d2) && d0 > 0 && issuance * d2 >= (issuance - m) * d0 }),
{
    let m = spec_shares_for(a, i, amount, amp, issuance, fee, di)->0; let b = a.update(i, AssetReserve { amount: (a[i].amount - amount) as u128, decimals: a[i].decimals });
    let d0 = spec_d(norms(a), amp, di)->0; let d1 = spec_d(norms(b), amp, di)->0; let d2 = spec_d(lfs(a, b, d0, d1, lfee(fee, a.len() as int)), amp, di)->0;
    let x = issuance * (d0 - d2);
    assert(0 <= x) by (nonlinear_arith) requires x == issuance * (d0 - d2), issuance >= 0, d2 <= d0;
    lem_div(x, d0); lem_div_pos(x, d0); let q = x / d0;
    assert(m * d0 >= x && issuance * d2 >= (issuance - m) * d0) by (nonlinear_arith) requires m == q + 1, x < d0 * q + d0, x == issuance * (d0 - d2), d0 > 0;
}
}
fn main(){}
