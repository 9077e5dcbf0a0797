//@ root math/src
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ include satconv.rs
pub type Balance = u128;
pub open spec fn m128() -> int { u128::MAX as int }
/// how long an accumulated amount is deferred: the duration times the excess over the limit, in limits
pub open spec fn spec_defer(d: int, l: int, acc: int) -> int { imin(imin(imax(d, 1) * imax(acc - l, 0), m128()) / imax(l, 1), u32::MAX as int) }
/// what is left of an accumulated amount after some blocks
pub open spec fn spec_decay(d: int, l: int, acc: int, blocks: int) -> int { imax(acc - imin(l * blocks, m128()) / imax(d, 1), 0) }
//@ fn math/src/rate_limiter/math.rs::calculate_deferred_duration(defer_duration, rate_limit, total_accumulated)
//@ ensures r as int == spec_defer(defer_duration as int, rate_limit as int, total_accumulated as int)
//@ pre broadcast use vxf;
//@ end
//@ fn math/src/rate_limiter/math.rs::decay_accumulated_amount(defer_duration, rate_limit, accumulated_amount, blocks_since_last_update)
//@ ensures r as int == spec_decay(defer_duration as int, rate_limit as int, accumulated_amount as int, blocks_since_last_update as int)
//@ pre broadcast use vxf;
//@ end
//@ fn math/src/rate_limiter/math.rs::calculate_new_accumulated_amount(defer_duration, rate_limit, incoming_amount, accumulated_amount, blocks_since_last_update)
//@ ensures r as int == imin(incoming_amount as int + spec_decay(defer_duration as int, rate_limit as int, accumulated_amount as int, blocks_since_last_update as int), m128())
//@ pre broadcast use vxf;
//@ end
// ---------------------------------------------------------------- property lemmas
/// nothing is deferred up to the limit; twice the limit is deferred by exactly the duration
proof fn c35_anchor(d: int, l: int, acc: int)
    requires 0 <= l, 1 <= d <= u32::MAX, 0 <= acc,
    ensures acc <= l ==> spec_defer(d, l, acc) == 0,
        1 <= l && d * l <= m128() ==> spec_defer(d, l, 2 * l) == d,
{
    if acc <= l { assert(d * 0 == 0); assert(0int / imax(l, 1) == 0) by (nonlinear_arith) requires imax(l, 1) >= 1; }
    if 1 <= l && d * l <= m128() { assert(d * l >= 0) by (nonlinear_arith) requires d >= 1, l >= 1; lem_div_is(d * l, l, d); }
}
/// more accumulated is never deferred less
proof fn c35_monotone(d: int, l: int, acc: int, acc2: int)
    requires 0 <= l, 0 <= d, acc <= acc2,
    ensures 0 <= spec_defer(d, l, acc) <= spec_defer(d, l, acc2),
{
    let (a, b, k) = (imax(acc - l, 0), imax(acc2 - l, 0), imax(d, 1));
    assert(0 <= k * a <= k * b) by (nonlinear_arith) requires 0 <= a <= b, k >= 1;
    lem_div_mono(imin(k * a, m128()), imin(k * b, m128()), imax(l, 1));
    lem_div_pos(imin(k * a, m128()), imax(l, 1));
}
/// decay never adds, is nil at once, grows with time, and one full duration removes one whole limit
proof fn c35_decay(d: int, l: int, acc: int, blocks: int, blocks2: int)
    requires 0 <= l <= m128(), 1 <= d, 0 <= acc, 0 <= blocks <= blocks2,
    ensures 0 <= spec_decay(d, l, acc, blocks2) <= spec_decay(d, l, acc, blocks) <= acc,
        spec_decay(d, l, acc, 0) == acc,
        l * d <= m128() ==> spec_decay(d, l, acc, d) == imax(acc - l, 0),
{
    assert(0 <= l * blocks <= l * blocks2) by (nonlinear_arith) requires 0 <= l, 0 <= blocks <= blocks2;
    lem_div_mono(imin(l * blocks, m128()), imin(l * blocks2, m128()), d);
    lem_div_pos(imin(l * blocks, m128()), d);
    assert(l * 0 == 0); assert(0int / d == 0) by (nonlinear_arith) requires d >= 1;
    if l * d <= m128() { lem_div_is(l * d, d, l); }
}
/// waiting out the deferral brings the accumulated amount back to the limit: not below it, and above it by less than one block's release plus one
proof fn c35_wait(d: int, l: int, acc: int)
    requires 1 <= l, 1 <= d, l <= acc, d * (acc - l) <= m128(), d * (acc - l) / l <= u32::MAX,
    ensures ({ let rest = spec_decay(d, l, acc, spec_defer(d, l, acc)); l <= rest && d * (rest - l) < d + l }),
{
    assert(d * (acc - l) >= 0) by (nonlinear_arith) requires d >= 1, acc >= l;
    let w = (d * (acc - l)) / l; lem_div(d * (acc - l), l); lem_div_pos(d * (acc - l), l);
    assert(spec_defer(d, l, acc) == w);
    assert(l * w == w * l && w * l <= d * (acc - l)) by (nonlinear_arith) requires w * l <= d * (acc - l);
    let q = (l * w) / d; lem_div(l * w, d);
    assert(q <= acc - l) by (nonlinear_arith) requires q * d <= l * w, l * w == w * l, w * l <= d * (acc - l), d >= 1;
    let rest = acc - q;
    assert(d * (rest - l) == d * (acc - l) - q * d) by (nonlinear_arith) requires rest == acc - q;
}
}
fn main(){}
