// ---------------------------------------------------------------- specification
/// amount paid out for selling dx into reserves (x, y)
pub open spec fn spec_sell(x: int, y: int, dx: int) -> Option<int> {
    if dx == 0 { Some(0int) } else { fit128((y * dx) / (x + dx)) }
}
/// amount charged for buying dy out of reserves (x, y)
pub open spec fn spec_buy(x: int, y: int, dy: int) -> Option<int> {
    if dy == 0 { Some(0int) } else if dy >= y { None } else { fit128((x * dy) / (y - dy) + 1) }
}
pub open spec fn spec_spot(x: int, y: int, amount: int) -> Option<int> {
    if x == 0 { None } else { fit128((y * amount) / x) }
}
pub open spec fn okfx(r: Result<FixedU128, MathError>) -> Option<int> { match r { Ok(v) => Some(v@), Err(_) => None } }
/// spot price scaled by 10^18, reduced by the fee n/d (itself a truncated 18 decimal number)
pub open spec fn spec_spot_fee(x: int, y: int, fee: Option<(u32, u32)>) -> Option<int> {
    if x == 0 { None } else {
        let p = ndiv(d18() * y, x);
        if p > u128::MAX { None } else { match fee {
            None => Some(p),
            Some(f) => if f.1 == 0 { None } else {
                let q = (f.0 as int * d18()) / (f.1 as int);
                if q > d18() { None } else { fit128((p * (d18() - q)) / d18()) }
            },
        } }
    }
}

//@ fn math/src/xyk/math.rs::calculate_spot_price(in_reserve, out_reserve, amount)
//@ ensures ok128(r) == spec_spot(in_reserve as int, out_reserve as int, amount as int)
//@ pre broadcast use vx; assert(amount == 0 || out_reserve == 0 ==> out_reserve as int * amount as int == 0) by (nonlinear_arith);
//@ end
//@ fn math/src/xyk/math.rs::calculate_spot_price_with_fee(in_reserve, out_reserve, fee_rate)
//@ ensures okfx(r) == spec_spot_fee(in_reserve as int, out_reserve as int, fee_rate)
//@ pre broadcast use vxf; assert((1int * d18()) / 1 == d18() && ndiv(d18() * 1, 1) == d18()) by (nonlinear_arith);
//@ end
//@ fn math/src/xyk/math.rs::calculate_out_given_in(in_reserve, out_reserve, amount_in)
//@ ensures ok128(r) == spec_sell(in_reserve as int, out_reserve as int, amount_in as int)
//@ pre broadcast use vx;
//@ end
//@ fn math/src/xyk/math.rs::calculate_in_given_out(out_reserve, in_reserve, amount_out)
//@ ensures ok128(r) == spec_buy(in_reserve as int, out_reserve as int, amount_out as int)
//@ pre broadcast use vx;
//@ end

// ---------------------------------------------------------------- property lemmas
/// a sell leaves the product at least as large, pays out less than the reserve, and never more than the spot price allows
proof fn c01_sell(x: int, y: int, dx: int)
    requires 0 <= x, 0 <= y, 0 <= dx, spec_sell(x, y, dx) is Some,
    ensures ({ let o = spec_sell(x, y, dx)->0;
        &&& 0 <= o <= y
        &&& (x + dx) * (y - o) >= x * y
        &&& (x > 0 && y > 0 ==> o < y)
        &&& o * x <= y * dx }),
{
    let o = spec_sell(x, y, dx)->0;
    if dx == 0 { assert(0 * x == 0 && y * 0 == 0) by (nonlinear_arith); } else {
        lem_div(y * dx, x + dx);
        assert(0 <= o) by (nonlinear_arith) requires (y * dx) < o * (x + dx) + (x + dx), y >= 0, dx > 0, x >= 0;
        assert(o <= y) by (nonlinear_arith) requires o * (x + dx) <= y * dx, y >= 0, dx > 0, x >= 0;
        assert((x + dx) * (y - o) >= x * y) by (nonlinear_arith) requires o * (x + dx) <= y * dx;
        if x > 0 && y > 0 { assert(o < y) by (nonlinear_arith) requires o * (x + dx) <= y * dx, x > 0, y > 0, dx > 0; }
        assert(o * x <= y * dx) by (nonlinear_arith) requires o * (x + dx) <= y * dx, 0 <= o, dx > 0;
    }
}
/// a buy leaves the product at least as large, is never free, and overcharges by at most one unit
proof fn c01_buy(x: int, y: int, dy: int)
    requires 0 <= x, 0 <= y, 0 <= dy, spec_buy(x, y, dy) is Some,
    ensures ({ let i = spec_buy(x, y, dy)->0;
        &&& (x + i) * (y - dy) >= x * y
        &&& (dy > 0 ==> i > 0 && dy < y)
        &&& (dy > 0 ==> (i - 1) * (y - dy) <= x * dy) }),
{
    let i = spec_buy(x, y, dy)->0;
    if dy > 0 {
        lem_div(x * dy, y - dy);
        assert(x * dy >= 0) by (nonlinear_arith) requires x >= 0, dy >= 0;
        assert(i - 1 >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x * dy, y - dy); }
        assert((x + i) * (y - dy) >= x * y) by (nonlinear_arith) requires x * dy < (i - 1) * (y - dy) + (y - dy);
    } else { assert((x + i) * (y - dy) == x * y) by (nonlinear_arith) requires i == 0, dy == 0; }
}
