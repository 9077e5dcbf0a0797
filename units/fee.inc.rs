pub open spec fn spec_fee(a: int, n: int, d: int) -> Option<int> {
    if n == 0 || d == 0 { Some(0int) } else if n == d { Some(a) } else { fit128((a / d) * n) }
}
//@ fn math/src/fee.rs::calculate_pool_trade_fee(amount, fee)
//@ ensures okint(r) == spec_fee(amount as int, fee.0 as int, fee.1 as int)
//@ pre broadcast use vx; assert(amount as int / 1 == amount); assert(0int * (fee.0 as int) == 0 && amount * 0 == 0) by (nonlinear_arith);
//@ end
/// never more than the exact proportional fee, and short of it by less than the numerator
proof fn c03_bounds(a: int, n: int, d: int)
    requires 0 <= a, 0 <= n, 0 < d, spec_fee(a, n, d) is Some,
    ensures ({ let f = spec_fee(a, n, d)->0; 0 <= f && f * d <= a * n && (a * n < f * d + n * d || n == 0) }),
{
    let f = spec_fee(a, n, d)->0;
    if n == 0 { assert(f * d <= a * n) by (nonlinear_arith) requires f == 0, n == 0; }
    else if n == d { assert(a * n < f * d + n * d) by (nonlinear_arith) requires f == a, n == d, d > 0; assert(f * d == a * n); }
    else {
        lem_div(a, d);
        let q = a / d;
        assert(f * d <= a * n) by (nonlinear_arith) requires f == q * n, q * d <= a, n > 0;
        assert(a * n < f * d + n * d) by (nonlinear_arith) requires f == q * n, a < q * d + d, n > 0;
    }
}
/// a fee fraction of at most one never takes more than the amount and never fails
proof fn c03_at_most(a: int, n: int, d: int)
    requires 0 <= a <= u128::MAX, 0 <= n <= d,
    ensures spec_fee(a, n, d) is Some, 0 <= spec_fee(a, n, d)->0 <= a,
{
    if n > 0 && n < d {
        lem_div(a, d);
        let q = a / d;
        assert(0 <= q) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a, d); }
        assert(0 <= q * n <= a) by (nonlinear_arith) requires 0 <= q, q * d <= a, 0 < n, n < d;
    }
}
