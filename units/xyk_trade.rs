//@ root math/src
//@ subst math.rs|Rounding => PerRounding
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
pub type Balance = u128;

//@ include xyk_trade.inc.rs
/// selling there and back never returns more than was put in
proof fn c01_roundtrip(x: int, y: int, dx: int)
    requires 0 < x, 0 < y, 0 <= dx, spec_sell(x, y, dx) is Some, spec_sell(y - spec_sell(x, y, dx)->0, x + dx, spec_sell(x, y, dx)->0) is Some,
    ensures spec_sell(y - spec_sell(x, y, dx)->0, x + dx, spec_sell(x, y, dx)->0)->0 <= dx,
{
    let o = spec_sell(x, y, dx)->0;
    c01_sell(x, y, dx);
    if o > 0 {
        let b = spec_sell(y - o, x + dx, o)->0;
        lem_div((x + dx) * o, (y - o) + o);
        lem_div(y * dx, x + dx);
        assert(b <= dx) by (nonlinear_arith) requires b * y <= (x + dx) * o, o * (x + dx) <= y * dx, y > 0;
    }
}
/// buying back what was just sold costs at least what was received for it
proof fn c01_buy_then_sell(x: int, y: int, dy: int)
    requires 0 < x, 0 < y, 0 <= dy, spec_buy(x, y, dy) is Some, spec_sell(y - dy, x + spec_buy(x, y, dy)->0, dy) is Some,
    ensures spec_sell(y - dy, x + spec_buy(x, y, dy)->0, dy)->0 <= spec_buy(x, y, dy)->0,
{
    let i = spec_buy(x, y, dy)->0;
    c01_buy(x, y, dy);
    if dy > 0 {
        let b = spec_sell(y - dy, x + i, dy)->0;
        lem_div((x + i) * dy, (y - dy) + dy);
        assert(b <= i) by (nonlinear_arith) requires b * y <= (x + i) * dy, (x + i) * (y - dy) >= x * y, y > 0;
    }
}
/// selling more never pays less, buying more never costs less
proof fn c01_monotone(x: int, y: int, a: int, b: int)
    requires 0 <= x, 0 <= y, 0 <= a <= b,
    ensures
        spec_sell(x, y, a) is Some && spec_sell(x, y, b) is Some ==> spec_sell(x, y, a)->0 <= spec_sell(x, y, b)->0,
        spec_buy(x, y, a) is Some && spec_buy(x, y, b) is Some ==> spec_buy(x, y, a)->0 <= spec_buy(x, y, b)->0,
{
    if spec_sell(x, y, a) is Some && spec_sell(x, y, b) is Some && a > 0 {
        let p = (y * a) / (x + a); let q = (y * b) / (x + b);
        lem_div(y * a, x + a); lem_div(y * b, x + b);
        if p > q {
            assert(y * a * (x + b) <= y * b * (x + a)) by (nonlinear_arith) requires 0 <= a <= b, y >= 0, x >= 0;
            assert(p * (x + a) * (x + b) <= y * a * (x + b)) by (nonlinear_arith) requires p * (x + a) <= y * a, x + b > 0;
            assert(y * b * (x + a) < (q + 1) * (x + b) * (x + a)) by (nonlinear_arith) requires y * b < q * (x + b) + (x + b), x + a > 0;
            assert(p * (x + a) * (x + b) >= (q + 1) * (x + b) * (x + a)) by (nonlinear_arith) requires p >= q + 1, x + a > 0, x + b > 0;
            assert(false);
        }
    }
    if spec_sell(x, y, b) is Some && b > 0 { c01_sell(x, y, b); }
    if spec_buy(x, y, a) is Some && spec_buy(x, y, b) is Some && b > 0 {
        c01_buy(x, y, b);
        if a > 0 {
            c01_buy(x, y, a);
            let p = (x * a) / (y - a); let q = (x * b) / (y - b);
            lem_div(x * a, y - a); lem_div(x * b, y - b);
            if p > q {
                assert(x * a <= x * b) by (nonlinear_arith) requires a <= b, x >= 0;
                assert(p * (y - a) >= p * (y - b)) by (nonlinear_arith) requires a <= b, p > q, q >= 0;
                assert(p * (y - b) >= q * (y - b) + (y - b)) by (nonlinear_arith) requires p >= q + 1, y - b > 0;
                assert(false);
            }
        }
    }
}
}
fn main(){}
