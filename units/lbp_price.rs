//@ root math/src
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
pub type Balance = u128;
pub type AssetId = u32;
pub type LBPWeight = u32;
/// weighted spot price of `amount`
pub open spec fn spec_spot(x: int, y: int, wi: int, wo: int, amount: int) -> Option<int> {
    if x == 0 { None } else if amount == 0 || y == 0 { Some(0int) } else if wo == 0 || amount * y * wi >= p256() { None } else { fit128((amount * y * wi) / (x * wo)) }
}
pub open spec fn okfx(r: Result<FixedU128, MathError>) -> Option<int> { match r { Ok(v) => Some(v@), Err(_) => None } }
pub open spec fn spec_price(x: int, y: int, wi: int, wo: int) -> Option<int> {
    if x == 0 && y == 0 { None } else if y * wi > u128::MAX || x * wo > u128::MAX || x * wo == 0 { None } else { fit128((y * wi * d18()) / (x * wo)) }
}
pub open spec fn spec_price_fee(x: int, y: int, wi: int, wo: int, on_out: bool, fee: Option<(u32, u32)>) -> Option<int> {
    match spec_price(x, y, wi, wo) {
        None => None,
        Some(p) => match fee {
            None => Some(p),
            Some(f) => if !on_out { Some(p) } else if f.1 == 0 { None } else {
                let q = (f.0 as int * d18()) / (f.1 as int);
                if q > d18() { None } else { fit128((p * (d18() - q)) / d18()) }
            },
        }
    }
}
//@ fn math/src/lbp/lbp.rs::calculate_spot_price(in_reserve, out_reserve, in_weight, out_weight, amount)
//@ ensures ok128(r) == spec_spot(in_reserve as int, out_reserve as int, in_weight as int, out_weight as int, amount as int)
//@ pre broadcast use vx; proof { lem_lbp(in_reserve as int, out_reserve as int, in_weight as int, out_weight as int, amount as int); }
//@ end
//@ fn math/src/lbp/lbp.rs::calculate_spot_price_with_fee(in_reserve, out_reserve, in_weight, out_weight, fee_asset, asset_out, fee)
//@ ensures okfx(r) == spec_price_fee(in_reserve as int, out_reserve as int, in_weight as int, out_weight as int, fee_asset == asset_out, fee)
//@ pre broadcast use vxf; assert((1int * d18()) / 1 == d18() && ndiv(d18() * 1, 1) == d18()) by (nonlinear_arith);
//@ end
proof fn lem_lbp(x: int, y: int, wi: int, wo: int, a: int)
    requires 0 <= x <= u128::MAX, 0 <= y <= u128::MAX, 0 <= a <= u128::MAX, 0 <= wi <= u32::MAX, 0 <= wo <= u32::MAX,
    ensures 0 <= a * y, x * wo < p256(), 0 <= x * wo, x > 0 && wo > 0 ==> x * wo > 0,
        a * y * wi == wi * (a * y), 0 <= a * y * wi, x * wo == wo * x, a * y == y * a,
        a * wi * y == a * y * wi, y * wi * a == a * y * wi, wi * a * y == a * y * wi, a * y == 0 <==> (a == 0 || y == 0),
{
    assert(0 <= a * y && (a * y == 0 <==> (a == 0 || y == 0))) by (nonlinear_arith) requires a >= 0, y >= 0;
    assert(x * wo <= u128::MAX * u32::MAX && 0 <= x * wo) by (nonlinear_arith) requires 0 <= x <= u128::MAX, 0 <= wo <= u32::MAX;
    assert(u128::MAX * u32::MAX < p256()) by (compute);
    assert(a * y * wi == wi * (a * y) && x * wo == wo * x && a * y == y * a && a * wi * y == a * y * wi && y * wi * a == a * y * wi && wi * a * y == a * y * wi) by (nonlinear_arith);
    assert(0 <= a * y * wi) by (nonlinear_arith) requires 0 <= a * y, 0 <= wi;
    assert(x > 0 && wo > 0 ==> x * wo > 0) by (nonlinear_arith);
}
}
fn main(){}
