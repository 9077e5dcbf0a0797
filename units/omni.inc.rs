//@ include omni_items.inc.rs
pub open spec fn mil() -> int { 1_000_000 }
/// amount left after the fee, rounded down
pub open spec fn no_fee(a: int, f: int) -> int { ((mil() - f) * a) / mil() }
//@ fn math/src/omnipool/math.rs::amount_without_fee(amount, fee)
//@ ensures into_(r) == Some(no_fee(amount as int, fee@))
//@ pre broadcast use vxf;
//@ end
/// share of `q` for `a` joining `r`
pub open spec fn into_pool(a: int, q: int, r: int) -> Option<int> { if r + a == 0 { None } else { Some((a * q) / (r + a)) } }
pub proof fn lem_into(a: int, q: int, r: int)
    requires 0 <= a <= u128::MAX, 0 <= q <= u128::MAX, 0 <= r <= u128::MAX,
    ensures r + a < p256(), 0 <= a * q < p256(), a * q == q * a, into_pool(a, q, r) matches Some(v) ==> 0 <= v <= q && (r > 0 && q > 0 ==> v < q) && (r + a) * (q - v) >= r * q,
{
    assert(0 <= a * q <= u128::MAX * u128::MAX) by (nonlinear_arith) requires 0 <= a <= u128::MAX, 0 <= q <= u128::MAX;
    assert(u128::MAX * u128::MAX < p256()) by (compute);
    assert(a * q == q * a) by (nonlinear_arith);
    if r + a > 0 {
        let d = r + a; let v = (a * q) / d; lem_div(a * q, d); lem_div_pos(a * q, d);
        assert(v <= q) by (nonlinear_arith) requires v * d <= a * q, d >= a, d > 0, q >= 0, a >= 0;
        assert(r > 0 && q > 0 ==> v < q) by (nonlinear_arith) requires v * d <= a * q, d == r + a, a >= 0, r >= 0;
        assert((r + a) * (q - v) >= r * q) by (nonlinear_arith) requires v * (r + a) <= a * q;
    }
}
pub proof fn lem_nofee(a: int, f: int)
    requires 0 <= a <= u128::MAX, 0 <= f <= 1_000_000,
    ensures 0 <= no_fee(a, f) <= a, no_fee(a, 0) == a, 0 <= (f * a) / mil() <= a, 0 <= f * a, 0 <= (mil() - f) * a,
{
    assert(0 <= (mil() - f) * a <= mil() * a && 0 <= f * a <= mil() * a) by (nonlinear_arith) requires 0 <= f <= mil(), 0 <= a;
    lem_div((mil() - f) * a, mil()); lem_div_pos((mil() - f) * a, mil()); lem_div(f * a, mil()); lem_div_pos(f * a, mil());
    assert((mil() - 0) * a == a * mil()) by (nonlinear_arith); lem_div_is(a * mil(), mil(), a);
}
/// fee on top of an amount received, rounded up
pub open spec fn fee_on(f: int, a: int) -> int { if f == 0 { 0 } else if f == mil() { a } else { imin(imin(f * a, u128::MAX as int) / (mil() - f) + 1, u128::MAX as int) } }
