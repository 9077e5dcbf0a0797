pub type EmaVolume = (u128, u128, u128, u128);
pub type EmaLiquidity = (u128, u128);
/// the weighted average of two amounts, rounded to the nearest one, ties towards the previous
pub open spec fn wavg(p: int, i: int, w: int) -> int { if i >= p { p + ndiv((i - p) * w, one127()) } else { p - ndiv((p - i) * w, one127()) } }
/// the weight of the newest value after n steps: 1 - (1-s)^n
pub open spec fn esm(s: int, n: int) -> int { one127() - powhp(one127() - s, n) }
pub open spec fn vol(v: EmaVolume, i: EmaVolume, w: int) -> (int, int, int, int) { (wavg(v.0 as int, i.0 as int, w), wavg(v.1 as int, i.1 as int, w), wavg(v.2 as int, i.2 as int, w), wavg(v.3 as int, i.3 as int, w)) }
pub open spec fn iv(v: EmaVolume) -> (int, int, int, int) { (v.0 as int, v.1 as int, v.2 as int, v.3 as int) }
pub open spec fn liq(v: EmaLiquidity, i: EmaLiquidity, w: int) -> (int, int) { (wavg(v.0 as int, i.0 as int, w), wavg(v.1 as int, i.1 as int, w)) }
pub open spec fn il(v: EmaLiquidity) -> (int, int) { (v.0 as int, v.1 as int) }
//@ fn math/src/ema/math.rs::balance_weighted_average(prev, incoming, weight)
//@ requires weight@ <= one127()
//@ ensures r as int == wavg(prev as int, incoming as int, weight@)
//@ pre broadcast use vxr; proof { if incoming >= prev { lem_scale(incoming - prev, weight@); } else { lem_scale(prev - incoming, weight@); } }
//@ end
//@ fn math/src/ema/math.rs::volume_weighted_average(prev, incoming, weight)
//@ requires weight@ <= one127()
//@ ensures iv(r) == vol(prev, incoming, weight@)
//@ end
//@ fn math/src/ema/math.rs::liquidity_weighted_average(prev, incoming, weight)
//@ requires weight@ <= one127()
//@ ensures il(r) == liq(prev, incoming, weight@)
//@ end
//@ fn math/src/ema/math.rs::exp_smoothing(smoothing, iterations)
//@ requires smoothing@ <= one127()
//@ ensures r@ == esm(smoothing@, iterations as int), 0 <= r@ <= one127()
//@ pre broadcast use vxr; proof { lem_powhp(one127() - smoothing@, iterations as int); }
//@ end
//@ fn math/src/ema/math.rs::smoothing_from_period(period)
//@ ensures r@ == ndiv(2 * one127(), imax(period as int, 1) + 1)
//@ end
//@ fn math/src/ema/math.rs::iterated_balance_ema(iterations, prev, incoming, smoothing)
//@ requires smoothing@ <= one127()
//@ ensures r as int == wavg(prev as int, incoming as int, esm(smoothing@, iterations as int))
//@ end
//@ fn math/src/ema/math.rs::iterated_volume_ema(iterations, prev, smoothing)
//@ requires smoothing@ <= one127()
//@ ensures iv(r) == vol(prev, (0, 0, 0, 0), esm(smoothing@, iterations as int))
//@ end
//@ fn math/src/ema/math.rs::iterated_liquidity_ema(iterations, prev, incoming, smoothing)
//@ requires smoothing@ <= one127()
//@ ensures il(r) == liq(prev, incoming, esm(smoothing@, iterations as int))
//@ end
