//@ root math/src
//@ include prelude.rs
//@ include mathlib.rs
pub type Balance = u128;
//@ include fee.inc.rs
proof fn c03_monotone(a: int, b: int, n: int, d: int)
    requires 0 <= a <= b, 0 <= n, 0 <= d, spec_fee(a, n, d) is Some, spec_fee(b, n, d) is Some,
    ensures spec_fee(a, n, d)->0 <= spec_fee(b, n, d)->0,
{
    if n > 0 && d > 0 && n != d {
        lem_div_mono(a, b, d);
        assert((a / d) * n <= (b / d) * n) by (nonlinear_arith) requires a / d <= b / d, n > 0;
    }
}
}
fn main(){}
