//@ item math/src/stableswap/math.rs::Rounding
//@ item math/src/stableswap/types.rs::AssetReserve
/// 10^k, at most the largest balance
pub open spec fn p10(k: int) -> int { imin(ipow(10, k), u128::MAX as int) }
/// `amount` with `fr` decimals expressed with `to` decimals (saturating)
pub open spec fn norm(amount: int, fr: int, to: int, up: bool) -> int {
    if fr == to { amount } else if to > fr { imin(amount * p10(to - fr), u128::MAX as int) } else if up { imin(amount / p10(fr - to) + 1, u128::MAX as int) } else { amount / p10(fr - to) }
}
pub open spec fn norms(s: Seq<AssetReserve>) -> Seq<int> { Seq::new(s.len(), |i: int| norm(s[i].amount as int, s[i].decimals as int, 18, false)) }
pub proof fn lem_p10(k: int) ensures ipow(10, k) > 0, 0 < p10(k) <= u128::MAX decreases k { if k > 0 { lem_p10(k - 1); } }
pub broadcast proof fn lem_p10_b(k: int) ensures #![trigger ipow(10, k)] ipow(10, k) > 0 { lem_p10(k); }
pub broadcast proof fn lem_norm(a: int, fr: int, to: int, up: bool)
    requires 0 <= a <= u128::MAX,
    ensures #![trigger norm(a, fr, to, up)] 0 <= norm(a, fr, to, up) <= u128::MAX,
{
    lem_p10(to - fr); lem_p10(fr - to);
    if to > fr { assert(0 <= a * p10(to - fr)) by (nonlinear_arith) requires 0 <= a, 0 < p10(to - fr); } else { lem_div_pos(a, p10(fr - to)); }
}
pub proof fn lem_norms(s: Seq<AssetReserve>, k: int)
    requires 0 <= k < s.len(),
    ensures norms(s.take(k + 1)) =~= norms(s.take(k)).push(norm(s[k].amount as int, s[k].decimals as int, 18, false)),
{ assert(s.take(k + 1)[k] == s[k]); }
//@ fn math/src/stableswap/math.rs::normalize_value(amount, decimals, target_decimals, rounding)
//@ ensures r as int == norm(amount as int, decimals as int, target_decimals as int, rounding is Up)
//@ pre broadcast use vx, lem_p10_b;
//@ end
//@ fn math/src/stableswap/math.rs::normalize_reserves(reserves)
//@ meta gen.reserves=gen_rs(r, g)
//@ ensures ints(r@) =~= norms(reserves@)
//@ loop 0
//@ invariant ints($a@) =~= norms(reserves@.take($k as int)),
//@ loop-end 0
//@ proof { lem_norms(reserves@, $k - 1); }
//@ pre proof { assert(reserves@.take(reserves@.len() as int) =~= reserves@); }
//@ end
