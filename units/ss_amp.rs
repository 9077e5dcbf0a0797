//@ root math/src
//@ include prelude.rs
pub open spec fn spec_step(i: int, f: int, b0: int, b1: int, c: int) -> int { imin((if f > i { f - i } else { i - f }) * (c - b0), u128::MAX as int) / (b1 - b0) }
pub open spec fn spec_amp(i: int, f: int, b0: int, b1: int, c: int) -> int {
    if c < b0 || b1 <= b0 { i } else if c >= b1 { f } else if f > i { i + spec_step(i, f, b0, b1, c) } else { i - spec_step(i, f, b0, b1, c) }
}
pub proof fn lem_step(i: int, f: int, b0: int, b1: int, c: int)
    requires 0 <= i, 0 <= f, b0 <= c < b1,
    ensures 0 <= spec_step(i, f, b0, b1, c) <= (if f > i { f - i } else { i - f }), 0 <= (if f > i { f - i } else { i - f }) * (c - b0),
        c == b0 ==> spec_step(i, f, b0, b1, c) == 0,
{
    let d = if f > i { f - i } else { i - f }; let m = imin(d * (c - b0), u128::MAX as int);
    assert(0 <= d * (c - b0) <= d * (b1 - b0)) by (nonlinear_arith) requires 0 <= d, 0 <= c - b0 <= b1 - b0;
    lem_div_pos(m, b1 - b0); lem_div_is(d * (b1 - b0), b1 - b0, d); lem_div_mono(m, d * (b1 - b0), b1 - b0);
    if c == b0 { assert(d * 0 == 0); lem_div_is(0, b1 - b0, 0); }
}
//@ fn math/src/stableswap/math.rs::calculate_amplification(initial_amplification, final_amplification, initial_block, final_block, current_block)
//@ ensures r as int == spec_amp(initial_amplification as int, final_amplification as int, initial_block as int, final_block as int, current_block as int)
//@ pre proof { if initial_block <= current_block < final_block { lem_step(initial_amplification as int, final_amplification as int, initial_block as int, final_block as int, current_block as int); } }
//@ end
/// end points, range and direction of the ramp
proof fn c14_ramp(i: int, f: int, b0: int, b1: int, c: int, e: int)
    requires 0 <= i, 0 <= f, c <= e,
    ensures b0 < b1 ==> spec_amp(i, f, b0, b1, b0) == i && spec_amp(i, f, b0, b1, b1) == f, imin(i, f) <= spec_amp(i, f, b0, b1, c) <= imax(i, f),
        i <= f ==> spec_amp(i, f, b0, b1, c) <= spec_amp(i, f, b0, b1, e) || b1 <= b0, i >= f ==> spec_amp(i, f, b0, b1, c) >= spec_amp(i, f, b0, b1, e) || b1 <= b0,
        c < b0 ==> spec_amp(i, f, b0, b1, c) == i, b0 < b1 <= c ==> spec_amp(i, f, b0, b1, c) == f,
{
    if b0 < b1 { lem_step(i, f, b0, b1, b0); }
    if b0 <= c < b1 { lem_step(i, f, b0, b1, c); }
    if b0 <= e < b1 { lem_step(i, f, b0, b1, e); }
    if b0 <= c && e < b1 {
        let d = if f > i { f - i } else { i - f };
        assert(d * (c - b0) <= d * (e - b0)) by (nonlinear_arith) requires 0 <= d, c <= e;
        lem_div_mono(imin(d * (c - b0), u128::MAX as int), imin(d * (e - b0), u128::MAX as int), b1 - b0);
    }
}
}
fn main(){}
