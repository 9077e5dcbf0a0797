pub open spec fn spec_liq_in(a: int, b: int, amount: int) -> Option<int> {
    if a == 0 { None } else if amount == 0 || b == 0 { Some(0int) } else { fit128((amount * b) / a + 1) }
}
pub open spec fn spec_shares(reserve: int, amount: int, issuance: int) -> Option<int> {
    if reserve == 0 { None } else { fit128((issuance * amount) / reserve) }
}
pub open spec fn ok2(r: Result<(u128, u128), MathError>) -> Option<(int, int)> { match r { Ok(v) => Some((v.0 as int, v.1 as int)), Err(_) => None } }
pub open spec fn spec_liq_out(a: int, b: int, amount: int, total: int) -> Option<(int, int)> {
    if total == 0 { None } else if (amount * a) / total > u128::MAX || (amount * b) / total > u128::MAX { None } else { Some(((amount * a) / total, (amount * b) / total)) }
}
//@ fn math/src/xyk/math.rs::calculate_liquidity_in(a, b, amount)
//@ ensures ok128(r) == spec_liq_in(a as int, b as int, amount as int)
//@ pre broadcast use vx;
//@ end
//@ fn math/src/xyk/math.rs::calculate_liquidity_out(a, b, amount, total)
//@ ensures ok2(r) == spec_liq_out(a as int, b as int, amount as int, total as int)
//@ pre broadcast use vx;
//@ end
//@ fn math/src/xyk/math.rs::calculate_shares(reserve, amount, issuance)
//@ ensures okint(r) == spec_shares(reserve as int, amount as int, issuance as int)
//@ pre broadcast use vx;
//@ end

/// the second asset charged is never below proportion and at most one unit above it
proof fn c02_amount_b(a: int, b: int, amount: int)
    requires a > 0, b >= 0, amount >= 0, spec_liq_in(a, b, amount) is Some,
    ensures ({ let v = spec_liq_in(a, b, amount)->0; v * a >= amount * b && (v - 1) * a <= amount * b && v >= 0 }),
{
    lem_div(amount * b, a);
    let v = spec_liq_in(a, b, amount)->0;
    assert(amount * b >= 0) by (nonlinear_arith) requires amount >= 0, b >= 0;
    if amount == 0 || b == 0 { assert(amount * b == 0 && v * a == 0 && (v - 1) * a <= 0) by (nonlinear_arith) requires amount == 0 || b == 0, v == 0, a > 0; }
    else {
        let q = (amount * b) / a;
        assert(v * a == q * a + a && (v - 1) * a == q * a) by (nonlinear_arith) requires v == q + 1;
    }
}
/// adding liquidity does not lower what one existing share redeems for, in either asset
proof fn c02_no_dilution_add(a: int, b: int, issuance: int, amount: int)
    requires a > 0, b > 0, issuance > 0, amount >= 0, spec_liq_in(a, b, amount) is Some, spec_shares(a, amount, issuance) is Some,
    ensures ({ let v = spec_liq_in(a, b, amount)->0; let s = spec_shares(a, amount, issuance)->0;
        &&& (a + amount) * issuance >= a * (issuance + s)
        &&& (b + v) * issuance >= b * (issuance + s) }),
{
    let v = spec_liq_in(a, b, amount)->0; let s = spec_shares(a, amount, issuance)->0;
    c02_amount_b(a, b, amount);
    lem_div(issuance * amount, a);
    assert((a + amount) * issuance >= a * (issuance + s)) by (nonlinear_arith) requires s * a <= issuance * amount;
    assert(v * issuance * a >= b * s * a) by (nonlinear_arith) requires v * a >= amount * b, s * a <= issuance * amount, issuance > 0, b > 0;
    assert(v * issuance >= b * s) by (nonlinear_arith) requires v * issuance * a >= b * s * a, a > 0;
    assert((b + v) * issuance >= b * (issuance + s)) by (nonlinear_arith) requires v * issuance >= b * s;
}
/// removing liquidity pays at most the proportional part, so the remaining shares do not lose value
proof fn c02_no_dilution_remove(a: int, b: int, amount: int, total: int)
    requires a >= 0, b >= 0, 0 <= amount <= total, total > 0, spec_liq_out(a, b, amount, total) is Some,
    ensures ({ let o = spec_liq_out(a, b, amount, total)->0;
        &&& 0 <= o.0 <= a && 0 <= o.1 <= b
        &&& o.0 * total <= amount * a && o.1 * total <= amount * b
        &&& (a - o.0) * total >= a * (total - amount) && (b - o.1) * total >= b * (total - amount)
        &&& (amount == total ==> o.0 == a && o.1 == b) }),
{
    let o = spec_liq_out(a, b, amount, total)->0;
    lem_div(amount * a, total); lem_div(amount * b, total);
    assert(0 <= o.0 <= a) by (nonlinear_arith) requires o.0 * total <= amount * a, amount * a < o.0 * total + total, 0 <= amount <= total, total > 0, a >= 0;
    assert(0 <= o.1 <= b) by (nonlinear_arith) requires o.1 * total <= amount * b, amount * b < o.1 * total + total, 0 <= amount <= total, total > 0, b >= 0;
    assert((a - o.0) * total >= a * (total - amount)) by (nonlinear_arith) requires o.0 * total <= amount * a;
    assert((b - o.1) * total >= b * (total - amount)) by (nonlinear_arith) requires o.1 * total <= amount * b;
    if amount == total { 
        assert(a * total == amount * a && b * total == amount * b) by (nonlinear_arith) requires amount == total;
        lem_div_is(amount * a, total, a); lem_div_is(amount * b, total, b); }
}
