//@ root math/src
//@ subst math.rs|Rounding => PerRounding
//@ subst math.rs|Fee => Permill
//@ subst types.rs|Fee => Permill
//@ dropgen Fee
//@ call .into_clamped_perthing => into_clamped_permill
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
pub type Balance = u128;
//@ item math/src/dynamic_fees/types.rs::FeeParams derive none
//@ item math/src/dynamic_fees/types.rs::OracleEntry derive none
//@ item math/src/dynamic_fees/types.rs::NetVolumeDirection
pub use NetVolumeDirection::{InOut, OutIn};
pub open spec fn m128() -> int { u128::MAX as int }
/// a fee with 18 decimals
pub open spec fn pf(p: int) -> int { (p * d18()) / 1_000_000 }
/// previous fee decayed once for every block skipped, not below the minimum
pub open spec fn base(prev: int, blocks: int, decay: int, min: int) -> int {
    if blocks > 1 { imax(imax(pf(prev) - imin((decay * imin((blocks - 1) * d18(), m128())) / d18(), m128()), 0), pf(min)) } else { pf(prev) }
}
/// volume ratio with 18 decimals, nearest, capped
pub open spec fn ratio(up: int, down: int, l: int) -> int { if l == 0 { 0 } else { imin(ndiv(d18() * (if up >= down { up - down } else { down - up }), l), m128()) } }
/// fee before clamping: base + amplified ratio - decay when volume pushes the fee up, base - amplified ratio - decay when it pushes it down
pub open spec fn raw(b: int, up: int, down: int, l: int, amp: int, decay: int) -> int {
    let ax = imin((amp * ratio(up, down, l)) / d18(), m128());
    if l != 0 && up < down { imax(b - imin(ax + decay, m128()), 0) }
    else if ax > decay { imin(b + (ax - decay), m128()) }
    else { imax(b - (decay - ax), 0) }
}
pub open spec fn clamp(v: int, lo: int, hi: int) -> int { imax(lo, imin(v, hi)) }
pub open spec fn spec_fee(up: int, down: int, l: int, prev: int, blocks: int, min: int, max: int, decay: int, amp: int) -> int {
    clamp(fx_clamp(raw(base(prev, blocks, decay, min), up, down, l, amp, decay), 1_000_000), min, max)
}
impl OracleEntry {
//@ fn math/src/dynamic_fees/types.rs::OracleEntry::net_volume(direction)
//@ ensures r.0 as int == (if self.amount_out >= self.amount_in { self.amount_out - self.amount_in } else { self.amount_in - self.amount_out }),
//@   r.1 == (if direction is OutIn { self.amount_out < self.amount_in } else { self.amount_out > self.amount_in })
//@ pre broadcast use vxf;
//@ meta skip=1
//@ end
}
//@ fn math/src/dynamic_fees/math.rs::recalculate_fee(volume, previous_fee, last_block_diff, params, direction)
//@ requires params.min_fee@ <= params.max_fee@
//@ ensures direction is OutIn ==> r@ == spec_fee(volume.amount_out as int, volume.amount_in as int, volume.liquidity as int, previous_fee@, last_block_diff as int, params.min_fee@, params.max_fee@, params.decay@, params.amplification@),
//@   direction is InOut ==> r@ == spec_fee(volume.amount_in as int, volume.amount_out as int, volume.liquidity as int, previous_fee@, last_block_diff as int, params.min_fee@, params.max_fee@, params.decay@, params.amplification@)
//@ pre broadcast use vxf;
//@ meta skip=1
//@ end
//@ fn math/src/dynamic_fees/math.rs::recalculate_asset_fee(volume, previous_fee, last_block_diff, params)
//@ requires params.min_fee@ <= params.max_fee@
//@ ensures r@ == spec_fee(volume.amount_out as int, volume.amount_in as int, volume.liquidity as int, previous_fee@, last_block_diff as int, params.min_fee@, params.max_fee@, params.decay@, params.amplification@)
//@ pre broadcast use vxf;
//@ meta inst=::<sp_arithmetic::Permill>
//@   alias.Fee=Permill
//@ end
//@ fn math/src/dynamic_fees/math.rs::recalculate_protocol_fee(volume, previous_fee, last_block_diff, params)
//@ requires params.min_fee@ <= params.max_fee@
//@ ensures r@ == spec_fee(volume.amount_in as int, volume.amount_out as int, volume.liquidity as int, previous_fee@, last_block_diff as int, params.min_fee@, params.max_fee@, params.decay@, params.amplification@)
//@ pre broadcast use vxf;
//@ meta inst=::<sp_arithmetic::Permill>
//@   alias.Fee=Permill
//@ end
// ---------------------------------------------------------------- property lemmas
/// the fee never leaves its bounds
proof fn c34_bounds(up: int, down: int, l: int, prev: int, blocks: int, min: int, max: int, decay: int, amp: int)
    requires min <= max,
    ensures min <= spec_fee(up, down, l, prev, blocks, min, max, decay, amp) <= max,
{}
proof fn lem_clamp_mono(a: int, b: int, lo: int, hi: int)
    requires 0 <= a <= b, lo <= hi <= 1_000_000,
    ensures clamp(fx_clamp(a, 1_000_000), lo, hi) <= clamp(fx_clamp(b, 1_000_000), lo, hi),
{
    lem_div(a * 1_000_000, d18()); lem_div(b * 1_000_000, d18());
    if a <= d18() && b <= d18() { lem_div_mono(a * 1_000_000, b * 1_000_000, d18()); }
    if b > d18() && a <= d18() { assert((a * 1_000_000) / d18() <= 1_000_000) by { lem_div_mono(a * 1_000_000, d18() * 1_000_000, d18()); assert((d18() * 1_000_000) / d18() == 1_000_000) by (compute); } }
}
/// more volume in the direction the fee responds to never lowers it, more in the other direction never raises it
proof fn c34_direction(up: int, up2: int, down: int, l: int, prev: int, blocks: int, min: int, max: int, decay: int, amp: int)
    requires 0 <= up <= up2, 0 <= down, 0 <= l, 0 <= amp, 0 <= decay, 0 <= prev <= 1_000_000, 0 <= min <= max <= 1_000_000,
    ensures spec_fee(up, down, l, prev, blocks, min, max, decay, amp) <= spec_fee(up2, down, l, prev, blocks, min, max, decay, amp),
{
    let b = base(prev, blocks, decay, min);
    lem_div(prev * d18(), 1_000_000); lem_div(min * d18(), 1_000_000);
    assert(pf(prev) >= 0 && pf(min) >= 0) by { assert(prev * d18() >= 0 && min * d18() >= 0) by (nonlinear_arith) requires prev >= 0, min >= 0; }
    let (d1, d2) = (if up >= down { up - down } else { down - up }, if up2 >= down { up2 - down } else { down - up2 });
    if l != 0 {
        if up < down && up2 < down { lem_ratio_mono(d2, d1, l, amp); }
        else if up >= down { lem_ratio_mono(d1, d2, l, amp); }
        else { lem_ratio_mono(0, d1, l, amp); lem_ratio_mono(0, d2, l, amp); }
        lem_ratio_mono(0, d1, l, amp); lem_ratio_mono(0, d2, l, amp);
    }
    lem_clamp_mono(raw(b, up, down, l, amp, decay), raw(b, up2, down, l, amp, decay), min, max);
}
pub open spec fn axr(d: int, l: int, amp: int) -> int { imin((amp * imin(ndiv(d18() * d, l), m128())) / d18(), m128()) }
proof fn lem_ratio_mono(a: int, b: int, l: int, amp: int)
    requires 0 <= a <= b, l > 0, amp >= 0,
    ensures 0 <= axr(a, l, amp) <= axr(b, l, amp),
{
    assert(0 <= d18() * a <= d18() * b) by (nonlinear_arith) requires 0 <= a <= b;
    lem_ndiv_mono(d18() * a, d18() * b, l);
    let (x, y) = (imin(ndiv(d18() * a, l), m128()), imin(ndiv(d18() * b, l), m128()));
    assert(0 <= amp * x <= amp * y) by (nonlinear_arith) requires 0 <= x <= y, amp >= 0;
    lem_div_mono(amp * x, amp * y, d18()); lem_div(amp * x, d18());
    assert(0 <= (amp * x) / d18());
}
proof fn lem_ndiv_mono(a: int, b: int, c: int)
    requires 0 <= a <= b, c > 0,
    ensures 0 <= ndiv(a, c) <= ndiv(b, c),
{
    lem_div_mono(a, b, c); lem_div(a, c); lem_div(b, c);
    let (p, q) = (a / c, b / c);
    assert(p >= 0) by (nonlinear_arith) requires a < p * c + c, a >= 0, c > 0;
    assert(a % c == a - p * c && b % c == b - q * c) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, c); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, c); assert(c * p == p * c && c * q == q * c) by (nonlinear_arith); }
}
/// an idle asset (no net volume) moves straight down by the decay until it rests at the minimum
proof fn c34_idle(l: int, v: int, prev: int, min: int, max: int, decay: int, amp: int)
    requires 0 <= l, 0 <= amp, 0 <= decay, 0 <= min <= prev <= max <= 1_000_000,
    ensures spec_fee(v, v, l, prev, 1, min, max, decay, amp) <= prev,
        decay >= d18() ==> spec_fee(v, v, l, prev, 1, min, max, decay, amp) == min,
{
    assert(ratio(v, v, l) == 0) by { if l != 0 { assert(d18() * 0 == 0); assert(0int / l == 0 && 0int % l == 0) by (nonlinear_arith) requires l > 0; } }
    assert((amp * 0) / d18() == 0) by { assert(amp * 0 == 0) by (nonlinear_arith); }
    lem_div(prev * d18(), 1_000_000);
    let p = pf(prev);
    assert(p >= 0) by (nonlinear_arith) requires prev * d18() < p * 1_000_000 + 1_000_000, prev >= 0, d18() > 0;
    assert(p <= d18()) by (nonlinear_arith) requires p * 1_000_000 <= prev * d18(), prev <= 1_000_000, d18() > 0;
    let v2 = imax(p - decay, 0);
    lem_div(v2 * 1_000_000, d18());
    let f = (v2 * 1_000_000) / d18();
    assert(f <= prev) by (nonlinear_arith) requires f * d18() <= v2 * 1_000_000, v2 <= p, p * 1_000_000 <= prev * d18(), d18() > 0;
    if decay >= d18() { assert(v2 == 0); assert(0int / d18() == 0) by (compute); }
}
}
fn main(){}
