/// liquidity fee per unit of imbalance: fee * n / (4 * (n - 1)), 18 decimals
pub open spec fn lfee(fee: int, n: int) -> int { (fee * 1_000_000_000_000 * n) / (4 * (n - 1)) }
pub proof fn lem_lfee(fee: int, n: int)
    requires 0 <= fee <= 1_000_000, 2 <= n <= u64::MAX,
    ensures 0 <= lfee(fee, n) <= d18(),
        n * d18() <= u128::MAX, 4 * (n - 1) * d18() <= u128::MAX, (fee * 1_000_000_000_000 * (n * d18())) / d18() == fee * 1_000_000_000_000 * n, 0 <= fee * 1_000_000_000_000 * n <= u128::MAX,
        (fee * 1_000_000_000_000 * n * d18()) / (4 * (n - 1) * d18()) == lfee(fee, n),
{
    let x = fee * 1_000_000_000_000 * n; let y = 4 * (n - 1);
    assert(d18() == 1_000_000_000_000_000_000);
    assert(0 <= x <= d18() * n) by (nonlinear_arith) requires 0 <= fee * 1_000_000_000_000 <= d18(), x == fee * 1_000_000_000_000 * n, n >= 2;
    assert(fee * 1_000_000_000_000 * (n * d18()) == x * d18()) by (nonlinear_arith) requires x == fee * 1_000_000_000_000 * n;
    lem_div_is(x * d18(), d18(), x);
    vstd::arithmetic::div_mod::lemma_div_denominator(x * d18(), d18(), y);
    assert(d18() * y == y * d18());
    assert(x / y <= d18()) by { lem_div(x, y); assert(d18() * y >= d18() * n) by (nonlinear_arith) requires y >= n, d18() > 0; lem_div_mono(x, d18() * y, y); lem_div_is(d18() * y, y, d18()); }
    lem_div_pos(x, y);
}
pub proof fn lem_fees18(f: int, n: int)
    requires 0 <= f <= d18(),
    ensures forall|a: int| a >= 0 ==> 0 <= (#[trigger] (f * a)) / d18() <= a,
{
    assert(d18() == 1_000_000_000_000_000_000);
    assert forall|a: int| a >= 0 implies 0 <= (#[trigger] (f * a)) / d18() <= a by {
        assert(0 <= f * a <= a * d18()) by (nonlinear_arith) requires 0 <= a, 0 <= f <= d18();
        lem_div_mono(f * a, a * d18(), d18()); lem_div_is(a * d18(), d18(), a); lem_div_pos(f * a, d18());
    }
}
