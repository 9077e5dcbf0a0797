//@ root math/src
//@ include prelude.rs
//@ subst crate::support::rational::Rounding => RatRounding
//@ subst rational.rs|Rounding => RatRounding
//@ include rational.inc.rs
//@ fn math/src/support/rational.rs::round_u512_to_rational(nd, rounding)
//@ ensures r.0 == rnum(nd.0@, nd.1@, rounding), r.1 == rden(nd.0@, nd.1@, rounding)
//@ pre broadcast use vx, lem_nbits_b; proof { lem_rshift(nd.0@, nd.1@); }
//@ end
/// a fraction that fits stays as it is; a denominator that does not vanish does not become zero
proof fn c06_exact(n: int, d: int, m: RatRounding)
    requires 0 <= n, 0 <= d,
    ensures n < p128() && d < p128() ==> rnum(n, d, m) == n && rden(n, d, m) == d, 0 <= rnum(n, d, m) <= u128::MAX, 0 <= rden(n, d, m) <= u128::MAX, d > 0 ==> rden(n, d, m) > 0, n > 0 ==> rnum(n, d, m) > 0,
{
    lem_rshift(n, d); lem_nbits(n); lem_nbits(d);
    if n < p128() && d < p128() {
        assert(pow2s(128) == p128()) by { lem_pow2_add(64, 64); assert(pow2s(64) == 18446744073709551616) by (compute); assert(18446744073709551616int * 18446744073709551616int == p128()) by (compute); }
        if nbits(n) > 128 { lem_pow2_mono(128, nbits(n) - 1); }
        if nbits(d) > 128 { lem_pow2_mono(128, nbits(d) - 1); }
        assert(rshift(n, d) == 0);
    }
}
/// rounding down never raises the fraction, unless the numerator vanished in the shift (it is then one); rounding up never lowers it, unless it saturates
proof fn c06_direction(n: int, d: int)
    requires 0 <= n, 0 <= d,
    ensures rshift(n, d) == 0 || n == 0 || n / pow2s(rshift(n, d)) > 0 ==> rden(n, d, RatRounding::Down) < u128::MAX ==> rnum(n, d, RatRounding::Down) * d <= n * rden(n, d, RatRounding::Down),
        d == 0 || rshift(n, d) == 0 || d / pow2s(rshift(n, d)) > 0 ==> rnum(n, d, RatRounding::Up) < u128::MAX ==> rnum(n, d, RatRounding::Up) * d >= n * rden(n, d, RatRounding::Up) || d == 0,
{
    let s = rshift(n, d); let b = pow2s(s); lem_rshift(n, d); lem_div(n, b); lem_div(d, b);
    let q = n / b; let t = d / b;
    if s > 0 {
        if (q > 0 || n == 0) && t + 1 < u128::MAX {
            if n == 0 { lem_div_is(0, b, 0); assert(rnum(n, d, RatRounding::Down) == 0); assert(0 * d == 0 && 0 * rden(n, d, RatRounding::Down) == 0); }
            else { assert(q * d <= n * (t + 1)) by (nonlinear_arith) requires q * b <= n, d < t * b + b, q >= 0, t >= 0, b > 0, d >= 0; }
        }
        if t > 0 && q + 1 < u128::MAX { assert((q + 1) * d >= n * t) by (nonlinear_arith) requires t * b <= d, n < q * b + b, q >= 0, t >= 0, b > 0, n >= 0; }
    } else { assert(n * d == n * d); }
}
}
fn main(){}
