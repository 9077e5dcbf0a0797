pub open spec fn opt_fx(r: Option<FixedU128>) -> Option<int> { match r { Some(v) => Some(v@), None => None } }
/// a reserve less the fee on its distance from the balanced change d1/d0
pub open spec fn less_fee(i: int, u: int, d0: int, d1: int, f: int) -> Option<int> {
    if d0 == 0 || iabs(u - (d1 * i) / d0) > u128::MAX { None } else {
        match fit128((f * iabs(u - (d1 * i) / d0)) / d18()) { None => None, Some(x) => Some(imax(u - x, 0)) }
    }
}
pub open spec fn lf(a: Seq<AssetReserve>, b: Seq<AssetReserve>, k: int, d0: int, d1: int, f: int) -> Option<int> { less_fee(a[k].amount as int, b[k].amount as int, d0, d1, f) }
pub open spec fn lfs_ok(a: Seq<AssetReserve>, b: Seq<AssetReserve>, m: int, d0: int, d1: int, f: int) -> bool { forall|k: int| 0 <= k < m ==> #[trigger] lf(a, b, k, d0, d1, f) is Some }
pub open spec fn lfs(a: Seq<AssetReserve>, b: Seq<AssetReserve>, d0: int, d1: int, f: int) -> Seq<int> { Seq::new(b.len(), |k: int| norm(lf(a, b, k, d0, d1, f)->0, b[k].decimals as int, 18, false)) }
/// normalised reserves with amount `x` in place `i`
pub open spec fn amounts(s: Seq<AssetReserve>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].amount as int) }
pub open spec fn decs(s: Seq<AssetReserve>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].decimals as int) }

pub open spec fn spec_shares(a: Seq<AssetReserve>, b: Seq<AssetReserve>, amp: int, issuance: int, fee: int, di: int) -> Option<int> {
    let n = a.len() as int;
    if b.len() != n || n <= 1 { None } else {
        match (spec_d(norms(a), amp, di), spec_d(norms(b), amp, di)) {
            (Some(d0), Some(u)) => {
                let d1 = u - 2;
                if d1 < 0 || d1 < d0 { None } else if issuance == 0 { Some(d1) } else if !lfs_ok(a, b, n, d0, d1, lfee(fee, n)) { None } else {
                    match spec_d(lfs(a, b, d0, d1, lfee(fee, n)), amp, di) { None => None, Some(d2) => if d2 < d0 || d0 == 0 { None } else { fit128((issuance * (d2 - d0)) / d0) } }
                }
            },
            _ => None,
        }
    }
}
pub open spec fn spec_shares_for(a: Seq<AssetReserve>, i: int, amount: int, amp: int, issuance: int, fee: int, di: int) -> Option<int> {
    let n = a.len() as int;
    if n <= 1 || i >= n || amount > a[i].amount { None } else {
        let b = a.update(i, AssetReserve { amount: (a[i].amount - amount) as u128, decimals: a[i].decimals });
        match (spec_d(norms(a), amp, di), spec_d(norms(b), amp, di)) {
            (Some(d0), Some(d1)) => if !lfs_ok(a, b, n, d0, d1, lfee(fee, n)) { None } else {
                match spec_d(lfs(a, b, d0, d1, lfee(fee, n)), amp, di) { None => None, Some(d2) => if d2 > d0 || d0 == 0 { None } else { fit128((issuance * (d0 - d2)) / d0 + 1) } }
            },
            _ => None,
        }
    }
}
pub broadcast proof fn lem_norms_ext(a: Seq<AssetReserve>, b: Seq<AssetReserve>)
    ensures #![trigger norms(a), norms(b)] a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]) ==> norms(a) == norms(b),
{ if a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]) { assert(norms(a) =~= norms(b)); } }
//@ fn math/src/stableswap/math.rs::calculate_d(reserves, amplification)
//@ meta gen.reserves=gen_rs(r, g)
//@ meta gen.amplification=gen_amp(r, g)
//@ meta inst=::<64>
//@ ensures okint(r) == spec_d(norms(reserves@), amplification as int, D as int)
//@ end
impl AssetReserve {
//@ fn math/src/stableswap/types.rs::AssetReserve::new(amount, decimals)
//@ ensures r.amount == amount, r.decimals == decimals
//@ end
}
//@ fn math/src/stableswap/math.rs::calculate_shares(initial_reserves, updated_reserves, amplification, share_issuance, fee)
//@ meta gen.initial_reserves=gen_rs(r, g)
//@ meta gen.updated_reserves=gen_rs2(r, g, initial_reserves)
//@ meta gen.amplification=gen_amp(r, g)
//@ meta gen.share_issuance=gen_iss(r, g, initial_reserves)
//@ meta gen.fee=gen_fee(r)
//@ meta inst=::<64>
//@ attr #[verifier::allow_complex_invariants]
//@ ensures okint(r) == spec_shares(initial_reserves@, updated_reserves@, amplification as int, share_issuance as int, fee@, D as int)
//@ pre broadcast use vxf, lem_norms_ext; let ghost f0 = fee@; proof { if 1 < initial_reserves@.len() <= u64::MAX { lem_lfee(fee@, initial_reserves@.len() as int); lem_fees18(lfee(fee@, initial_reserves@.len() as int), 0); } }
//@ loop 0
//@ invariant_except_break $o, lfs_ok(initial_reserves@, updated_reserves@, $k as int, d0@, d1@, lfee(f0, n_coins as int)), norms($a@) =~= lfs(initial_reserves@, updated_reserves@, d0@, d1@, lfee(f0, n_coins as int)).take($k as int),
//@ invariant fee@ == lfee(f0, n_coins as int), $k <= updated_reserves@.len(), ensures $o ==> (lfs_ok(initial_reserves@, updated_reserves@, n_coins as int, d0@, d1@, fee@) && norms($a@) =~= lfs(initial_reserves@, updated_reserves@, d0@, d1@, fee@)), !$o ==> !lfs_ok(initial_reserves@, updated_reserves@, n_coins as int, d0@, d1@, fee@),
//@ loop-start 0
//@ broadcast use vxf; proof { assert(lf(initial_reserves@, updated_reserves@, $k as int, d0@, d1@, fee@) == lf(initial_reserves@, updated_reserves@, $k as int, d0@, d1@, fee@)); }
//@ after adjusted_reserves
//@ proof { assert(share_issuance == 0 ==> norms(adjusted_reserves@) == norms(updated_reserves@)); assert(share_issuance > 0 ==> norms(adjusted_reserves@) == lfs(initial_reserves@, updated_reserves@, d0@, d1@, fee@)); }
//@ end
//@ fn math/src/stableswap/math.rs::calculate_shares_for_amount(initial_reserves, asset_idx, amount, amplification, share_issuance, fee)
//@ meta gen.initial_reserves=gen_rs(r, g)
//@ meta gen.asset_idx=gen_idx(r, initial_reserves)
//@ meta gen.amount=gen_ra(r, g, initial_reserves, asset_idx)
//@ meta gen.amplification=gen_amp(r, g)
//@ meta gen.share_issuance=gen_iss(r, g, initial_reserves)
//@ meta gen.fee=gen_fee(r)
//@ meta inst=::<64>
//@ attr #[verifier::allow_complex_invariants]
//@ ensures okint(r) == spec_shares_for(initial_reserves@, asset_idx as int, amount as int, amplification as int, share_issuance as int, fee@, D as int)
//@ pre broadcast use vxf; let ghost f0 = fee@; proof { if 1 < initial_reserves@.len() <= u64::MAX { lem_lfee(fee@, initial_reserves@.len() as int); lem_fees18(lfee(fee@, initial_reserves@.len() as int), 0); } }
//@ let ghost a = initial_reserves@; let ghost b = a.update(asset_idx as int, AssetReserve { amount: (a[asset_idx as int].amount - amount) as u128, decimals: a[asset_idx as int].decimals });
//@ proof { assert(b.take(b.len() as int) =~= b); }
//@ loop 0
//@ invariant_except_break $o, $k > asset_idx ==> amount <= a[asset_idx as int].amount, $a@ =~= b.take($k as int),
//@ invariant $k <= a.len(), ensures $o ==> (amount <= a[asset_idx as int].amount && $a@ =~= b), !$o ==> amount > a[asset_idx as int].amount,
//@ loop 1
//@ invariant_except_break $o, lfs_ok(a, b, $k as int, d0@, d1@, lfee(f0, n_coins as int)), norms($a@) =~= lfs(a, b, d0@, d1@, lfee(f0, n_coins as int)).take($k as int),
//@ invariant fee@ == lfee(f0, n_coins as int), $k <= b.len(), ensures $o ==> (lfs_ok(a, b, n_coins as int, d0@, d1@, fee@) && norms($a@) =~= lfs(a, b, d0@, d1@, fee@)), !$o ==> !lfs_ok(a, b, n_coins as int, d0@, d1@, fee@),
//@ loop-start 1
//@ broadcast use vxf; proof { assert(lf(a, b, $k as int, d0@, d1@, fee@) == lf(a, b, $k as int, d0@, d1@, fee@)); }
//@ after updated_reserves
//@ proof { assert(updated_reserves@ =~= b); }
//@ after adjusted_reserves
//@ proof { assert(norms(adjusted_reserves@) == lfs(a, b, d0@, d1@, fee@)); }
//@ end
