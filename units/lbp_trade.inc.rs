pub open spec fn mres(r: Result<u128, MathError>) -> Option<int> { match r { Ok(v) => Some(v as int), Err(_) => None } }
/// n/d on 96 binary digits
pub open spec fn dtf(n: int, d: int, m: PerRounding) -> Option<int> { if d == 0 { None } else { fit128(rdiv(n * one96(), d, m)) } }
pub open spec fn mtb(b: int, f: int, m: PerRounding) -> Option<int> { fit128(rdiv(b * f, one96(), m)) }
pub open spec fn up() -> PerRounding { PerRounding::Up }
pub open spec fn down() -> PerRounding { PerRounding::Down }
//@ fn math/src/lbp/lbp.rs::div_to_fixed(num, denom, m)
//@ ensures (match r { Some(v) => Some(v@), None => None }) == dtf(num as int, denom as int, m)
//@ pre broadcast use vxq, vxf;
//@ end
//@ fn math/src/lbp/lbp.rs::mul_to_balance(balance, fixed, m)
//@ ensures into_(r) == mtb(balance as int, fixed@, m)
//@ pre broadcast use vxq, vxf;
//@ end
pub open spec fn sell(x: int, y: int, wi: int, wo: int, a: int) -> Option<int> {
    if a == 0 { Some(0int) } else if x + a > u128::MAX { None } else {
        match (dtf(wi, wo, down()), dtf(x, x + a, up())) {
            (Some(w), Some(b)) => match powf(b, w) { None => None, Some(p) => match mtb(y, p, up()) { None => None, Some(k) => if k > y { None } else { Some(y - k) } } },
            _ => None,
        }
    }
}
//@ fn math/src/lbp/lbp.rs::calculate_out_given_in(in_reserve, out_reserve, in_weight, out_weight, amount)
//@ ensures mres(r) == sell(in_reserve as int, out_reserve as int, in_weight as int, out_weight as int, amount as int)
//@ pre broadcast use vxq, vxf;
//@ end
pub open spec fn buy(x: int, y: int, wi: int, wo: int, a: int) -> Option<int> {
    if a > y { None } else {
        match (dtf(wo, wi, down()), dtf(y, y - a, up())) {
            (Some(w), Some(b)) => match powf(b, w) { None => None, Some(p) => if p < one96() { None } else { match mtb(x, p - one96(), up()) { None => None, Some(k) => Some(imin(k + 1, u128::MAX as int)) } } },
            _ => None,
        }
    }
}
//@ fn math/src/lbp/lbp.rs::calculate_in_given_out(in_reserve, out_reserve, in_weight, out_weight, amount)
//@ ensures mres(r) == buy(in_reserve as int, out_reserve as int, in_weight as int, out_weight as int, amount as int)
//@ pre broadcast use vxq, vxf;
//@ end
proof fn lem_rs_pos(x: int) requires x >= 0 ensures rs96(x) >= 0, x >= 2 * one96() ==> one96() <= rs96(x) < x {}
proof fn lem_lgw(x: int, n: int) requires x >= one96(), n >= 0 ensures lgw(x, n).1 >= n, one96() <= lgw(x, n).0 < 2 * one96() decreases x
{ if x >= 2 * one96() { lem_rs_pos(x); lem_lgw(rs96(x), n + 1); } }
proof fn lem_lgb(k: int, x: int, res: int) requires one96() <= x < 2 * one96(), res >= 0 ensures lgb(k, x, res) >= 0 decreases k
{ if k > 0 { lem_sq(x); lem_lgb(k - 1, if mul96(x, x) >= 2 * one96() { rs96(mul96(x, x)) } else { mul96(x, x) }, if mul96(x, x) >= 2 * one96() { 2 * res + 1 } else { 2 * res }); } }
proof fn lem_log2i(x: int) requires x >= one96() ensures log2i(x) >= 0, log2i(one96()) == 0
{ lem_lgw(x, 0); let w = lgw(x, 0); if w.0 != one96() { lem_lgb(96, w.0, w.1); } else { assert(w.1 * one96() >= 0) by (nonlinear_arith) requires w.1 >= 0, one96() > 0; } assert(lgw(one96(), 0) == (one96(), 0int)); }
proof fn lem_et(i: int, x: int, t: int, acc: int) requires i >= 1, x >= 0, t >= 0, 0 <= acc <= u128::MAX ensures et(i, x, t, acc) matches Some(s) ==> acc <= s <= u128::MAX decreases 288 - i
{
    if i < 288 {
        assert(t * x >= 0) by (nonlinear_arith) requires t >= 0, x >= 0; lem_div_pos(t * x, one96());
        let t1 = mul96(t, x); assert(t1 * one96() >= 0) by (nonlinear_arith) requires t1 >= 0, one96() > 0; lem_div_pos(t1 * one96(), i * one96());
        let t2 = (t1 * one96()) / (i * one96());
        if acc + t2 <= u128::MAX { lem_et(i + 1, x, t2, acc + t2); }
    }
}
/// the inverse of a number not below one is at most one and not zero
proof fn lem_inv(s: int) requires one96() <= s <= u128::MAX ensures 0 < (one96() * one96()) / s <= one96()
{
    let o = one96(); assert(o * o <= o * s) by (nonlinear_arith) requires o <= s, o > 0; lem_div_mono(o * o, o * s, s); assert(o * s == s * o) by (nonlinear_arith); lem_div_is(o * s, s, o);
    assert(p128() < o * o) by (compute); lem_div_mono(s, o * o, s); lem_div_is(s, s, 1);
}
/// a power of a number up to one stays between zero and one, of a number from one up stays there
proof fn lem_powf(x: int, e: int)
    requires 0 < x <= u128::MAX, 0 <= e <= u128::MAX,
    ensures powf(x, e) matches Some(p) ==> 0 <= p <= u128::MAX && (x <= one96() ==> 0 < p <= one96()) && (x >= one96() ==> p >= one96()),
{
    let o = one96();
    assert(exp_1() >= one96() && exp_1() <= u128::MAX) by (compute);
    if e != 0 && e != o && powf(x, e) is Some {
        let y = if x < o { (o * o) / x } else { x };
        if x < o { assert(o * x <= o * o) by (nonlinear_arith) requires x < o, o > 0; lem_div_mono(o * x, o * o, x); lem_div_is(o * x, x, o); }
        lem_log2i(y);
        let l = log2i(y); assert(l * o >= 0) by (nonlinear_arith) requires l >= 0, o > 0; lem_div_pos(l * o, log2_e());
        let n = (l * o) / log2_e(); assert(n * e >= 0) by (nonlinear_arith) requires n >= 0, e >= 0; lem_div_pos(n * e, o);
        let m = mul96(n, e);
        if x == o { assert(l == 0); assert(0 * o == 0); lem_div_is(0, log2_e(), 0); assert(n == 0); assert(0 * e == 0); lem_div_is(0, o, 0); assert(m == 0); }
        if m != 0 && m + o <= u128::MAX { lem_et(2, m, m, m + o); if et(2, m, m, m + o) is Some { lem_inv(et(2, m, m, m + o)->0); } }
    }
}
/// a sale never pays more than the pool has, and leaves something of a pool that is not empty; the payment rounds down
proof fn c38_sell(x: int, y: int, wi: int, wo: int, a: int)
    requires 0 < x <= u128::MAX, 0 <= y <= u128::MAX, 0 <= wi <= u32::MAX, 0 <= wo <= u32::MAX, 0 < a <= u128::MAX,
    ensures
        sell(x, y, wi, wo, a) matches Some(o) ==> 0 <= o <= y && (y > 0 ==> o < y) && (dtf(wi, wo, down()) matches Some(w) && dtf(x, x + a, up()) matches Some(b) && powf(b, w) matches Some(p) && p <= one96() && o * one96() <= y * (one96() - p)),
        // equal weights: never better than the constant product
        wi == wo && sell(x, y, wi, wo, a) is Some ==> (x + a) * (y - sell(x, y, wi, wo, a)->0) >= x * y,
{
    if sell(x, y, wi, wo, a) is Some {
        let o = one96(); let s = x + a;
        let w = dtf(wi, wo, down())->0; let b = dtf(x, s, up())->0;
        lem_up(x * o, s); lem_fdiv(wi * o, wo);
        assert(0 < x * o <= s * o) by (nonlinear_arith) requires 0 < x <= s, o > 0;
        assert(b <= o) by (nonlinear_arith) requires (b - 1) * s < x * o, x * o <= s * o, s > 0;
        assert(b > 0) by (nonlinear_arith) requires b * s >= x * o, x * o > 0, s > 0;
        lem_powf(b, w);
        let p = powf(b, w)->0; let k = mtb(y, p, up())->0; let r = y - k;
        assert(0 <= y * p) by (nonlinear_arith) requires y >= 0, p >= 0;
        lem_up(y * p, o);
        assert(r * o <= y * (o - p)) by (nonlinear_arith) requires k * o >= y * p, r == y - k;
        if y > 0 { assert(k > 0) by (nonlinear_arith) requires k * o >= y * p, y > 0, p > 0, o > 0; }
        if wi == wo {
            assert(wi * o == o * wo) by (nonlinear_arith) requires wi == wo; lem_div_is(o * wo, wo, o);
            assert(w == o); assert(p == b);
            assert(k * o * s >= y * (x * o)) by (nonlinear_arith) requires k * o >= y * b, b * s >= x * o, y >= 0, s > 0;
            assert(s * k >= x * y) by (nonlinear_arith) requires k * o * s >= y * (x * o), o > 0;
        }
    }
}
proof fn lem_up(n: int, d: int) requires n >= 0, d > 0 ensures rdiv(n, d, up()) * d >= n, (rdiv(n, d, up()) - 1) * d < n, rdiv(n, d, up()) >= 0
{ lem_div(n, d); lem_div_pos(n, d); let q = n / d; assert((q + 1) * d == q * d + d && (q - 1) * d == q * d - d) by (nonlinear_arith); }
proof fn lem_fdiv(n: int, d: int) requires n >= 0, d >= 0 ensures d > 0 ==> rdiv(n, d, down()) >= 0
{ if d > 0 { lem_div_pos(n, d); } }
/// a purchase always costs something, rounded up, and can not empty the pool
proof fn c38_buy(x: int, y: int, wi: int, wo: int, a: int)
    requires 0 <= x <= u128::MAX, 0 < y <= u128::MAX, 0 <= wi <= u32::MAX, 0 <= wo <= u32::MAX, 0 <= a <= u128::MAX,
    ensures
        a >= y ==> buy(x, y, wi, wo, a) is None,
        buy(x, y, wi, wo, a) matches Some(r) ==> 1 <= r <= u128::MAX && (dtf(wo, wi, down()) matches Some(w) && dtf(y, y - a, up()) matches Some(b) && powf(b, w) matches Some(p) && p >= one96() && (r < u128::MAX ==> (r - 1) * one96() >= x * (p - one96()))),
        // equal weights: never cheaper than the constant product
        wi == wo && buy(x, y, wi, wo, a) is Some && buy(x, y, wi, wo, a)->0 < u128::MAX ==> (x + buy(x, y, wi, wo, a)->0) * (y - a) >= x * y,
{
    if buy(x, y, wi, wo, a) is Some {
        let o = one96(); let s = y - a;
        let w = dtf(wo, wi, down())->0; let b = dtf(y, s, up())->0;
        assert(0 < y * o && s * o <= y * o) by (nonlinear_arith) requires 0 < y, s <= y, o > 0;
        assert(0 <= wo * o) by (nonlinear_arith) requires 0 <= wo, o > 0;
        lem_up(y * o, s); lem_fdiv(wo * o, wi);
        assert(b >= o) by (nonlinear_arith) requires b * s >= y * o, s * o <= y * o, s > 0;
        lem_powf(b, w);
        let p = powf(b, w)->0;
        assert(0 <= x * (p - o)) by (nonlinear_arith) requires x >= 0, p >= o;
        lem_up(x * (p - o), o);
        let k = mtb(x, p - o, up())->0;
        if wi == wo && k + 1 < u128::MAX {
            assert(wo * o == o * wi) by (nonlinear_arith) requires wi == wo; lem_div_is(o * wi, wi, o);
            assert(p == b);
            assert(k * o + x * o >= x * b) by (nonlinear_arith) requires k * o >= x * (b - o);
            assert((x + k) * o * s >= x * (y * o)) by (nonlinear_arith) requires k * o + x * o >= x * b, b * s >= y * o, x >= 0, s > 0;
            assert((x + k) * s >= x * y) by (nonlinear_arith) requires (x + k) * o * s >= x * (y * o), o > 0;
            assert((x + k + 1) * s >= (x + k) * s) by (nonlinear_arith) requires s > 0;
        }
    }
}
