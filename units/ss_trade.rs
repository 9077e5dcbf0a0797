//@ root math/src
//@ include prelude.rs
//@ include fixed.rs
//@ include seqlib.rs
//@ include ss_solve.inc.rs
//@ include ss_loops.inc.rs
//@ include ss_base.inc.rs
//@ include ss_core_d.inc.rs
//@ include ss_core_y.inc.rs
//@ include ss_given.inc.rs
//@ include ss_norm.inc.rs
pub open spec fn spec_out(s: Seq<AssetReserve>, i: int, j: int, amount: int, amp: int, di: int, yi: int) -> Option<int> {
    if i == j || i >= s.len() || j >= s.len() { None } else {
        match spec_y_in(norms(s), norm(amount, s[i].decimals as int, 18, true), i, j, amp, di, yi) {
            None => None,
            Some(y) => if norms(s)[j] < y { None } else { Some(imax(norm(norms(s)[j] - y, 18, s[j].decimals as int, false) - 1, 0)) },
        }
    }
}
pub open spec fn spec_in(s: Seq<AssetReserve>, i: int, j: int, amount: int, amp: int, di: int, yi: int) -> Option<int> {
    if i == j || i >= s.len() || j >= s.len() { None } else {
        match spec_y_out(norms(s), norm(amount, s[j].decimals as int, 18, false), i, j, amp, di, yi) {
            None => None,
            Some(y) => if y < norms(s)[i] { None } else { Some(imin(norm(y - norms(s)[i], 18, s[i].decimals as int, true) + 1, u128::MAX as int)) },
        }
    }
}
pub open spec fn okpair(r: Option<(u128, u128)>) -> Option<(int, int)> { match r { Some(v) => Some((v.0 as int, v.1 as int)), None => None } }
pub open spec fn spec_out_fee(s: Seq<AssetReserve>, i: int, j: int, amount: int, amp: int, fee: int, di: int, yi: int) -> Option<(int, int)> {
    match spec_out(s, i, j, amount, amp, di, yi) { None => None, Some(o) => Some((o - (o * fee) / 1_000_000, (o * fee) / 1_000_000)) }
}
pub open spec fn spec_in_fee(s: Seq<AssetReserve>, i: int, j: int, amount: int, amp: int, fee: int, di: int, yi: int) -> Option<(int, int)> {
    match spec_in(s, i, j, amount, amp, di, yi) { None => None, Some(o) => if o + cdiv(o * fee, 1_000_000) > u128::MAX { None } else { Some((o + cdiv(o * fee, 1_000_000), cdiv(o * fee, 1_000_000))) } }
}
//@ fn math/src/stableswap/math.rs::calculate_fee_amount(amount, fee, rounding)
//@ ensures r as int == (if rounding is Up { cdiv(amount * fee@, 1_000_000) } else { (amount * fee@) / 1_000_000 })
//@ pre broadcast use vxf; proof { lem_fee(amount as int, fee@); }
//@ end
//@ fn math/src/stableswap/math.rs::calculate_out_given_in(initial_reserves, idx_in, idx_out, amount_in, amplification)
//@ meta gen.initial_reserves=gen_rs(r, g)
//@ meta gen.idx_in=gen_idx(r, initial_reserves)
//@ meta gen.idx_out=gen_idx(r, initial_reserves)
//@ meta gen.amount_in=gen_ra(r, g, initial_reserves, idx_in)
//@ meta gen.amplification=gen_amp(r, g)
//@ meta inst=::<64, 128>
//@ requires initial_reserves@.len() < usize::MAX
//@ ensures okint(r) == spec_out(initial_reserves@, idx_in as int, idx_out as int, amount_in as int, amplification as int, D as int, Y as int)
//@ pre broadcast use vx, lem_norm;
//@ end
//@ fn math/src/stableswap/math.rs::calculate_in_given_out(initial_reserves, idx_in, idx_out, amount_out, amplification)
//@ meta gen.initial_reserves=gen_rs(r, g)
//@ meta gen.idx_in=gen_idx(r, initial_reserves)
//@ meta gen.idx_out=gen_idx(r, initial_reserves)
//@ meta gen.amount_out=gen_ra(r, g, initial_reserves, idx_out)
//@ meta gen.amplification=gen_amp(r, g)
//@ meta inst=::<64, 128>
//@ requires initial_reserves@.len() < usize::MAX
//@ ensures okint(r) == spec_in(initial_reserves@, idx_in as int, idx_out as int, amount_out as int, amplification as int, D as int, Y as int)
//@ pre broadcast use vx, lem_norm;
//@ end
//@ fn math/src/stableswap/math.rs::calculate_out_given_in_with_fee(initial_reserves, idx_in, idx_out, amount_in, amplification, fee)
//@ meta gen.initial_reserves=gen_rs(r, g)
//@ meta gen.idx_in=gen_idx(r, initial_reserves)
//@ meta gen.idx_out=gen_idx(r, initial_reserves)
//@ meta gen.amount_in=gen_ra(r, g, initial_reserves, idx_in)
//@ meta gen.amplification=gen_amp(r, g)
//@ meta gen.fee=gen_fee(r)
//@ meta inst=::<64, 128>
//@ requires initial_reserves@.len() < usize::MAX
//@ ensures okpair(r) == spec_out_fee(initial_reserves@, idx_in as int, idx_out as int, amount_in as int, amplification as int, fee@, D as int, Y as int)
//@ pre broadcast use vxf; proof { lem_fees(fee@); }
//@ end
//@ fn math/src/stableswap/math.rs::calculate_in_given_out_with_fee(initial_reserves, idx_in, idx_out, amount_out, amplification, fee)
//@ meta gen.initial_reserves=gen_rs(r, g)
//@ meta gen.idx_in=gen_idx(r, initial_reserves)
//@ meta gen.idx_out=gen_idx(r, initial_reserves)
//@ meta gen.amount_out=gen_ra(r, g, initial_reserves, idx_out)
//@ meta gen.amplification=gen_amp(r, g)
//@ meta gen.fee=gen_fee(r)
//@ meta inst=::<64, 128>
//@ requires initial_reserves@.len() < usize::MAX
//@ ensures okpair(r) == spec_in_fee(initial_reserves@, idx_in as int, idx_out as int, amount_out as int, amplification as int, fee@, D as int, Y as int)
//@ pre broadcast use vxf; proof { lem_fees(fee@); }
//@ end
proof fn lem_fee(a: int, f: int)
    requires 0 <= a, 0 <= f <= 1_000_000,
    ensures 0 <= a * f <= a * 1_000_000, 0 <= (a * f) / 1_000_000 <= a, 0 <= cdiv(a * f, 1_000_000) <= a,
{ assert(0 <= a * f <= a * 1_000_000) by (nonlinear_arith) requires 0 <= a, 0 <= f <= 1_000_000; }
proof fn lem_fees(f: int)
    requires 0 <= f <= 1_000_000,
    ensures forall|a: int| a >= 0 ==> 0 <= (#[trigger] (a * f)) / 1_000_000 <= a && 0 <= cdiv(a * f, 1_000_000) <= a,
{ assert forall|a: int| a >= 0 implies 0 <= (#[trigger] (a * f)) / 1_000_000 <= a && 0 <= cdiv(a * f, 1_000_000) <= a by { lem_fee(a, f); } }
// ---------------------------------------------------------------- property lemmas
/// a reserve whose normalised amount is not capped
pub open spec fn uncapped(a: AssetReserve) -> bool { a.decimals <= 18 && a.amount * p10(18 - a.decimals) <= u128::MAX }
/// after a sell the out reserve stays above the reserve the invariant demands, by at least one raw unit
proof fn c12_sell(s: Seq<AssetReserve>, i: int, j: int, amount: int, amp: int, di: int, yi: int)
    requires 0 <= i, 0 <= j, 0 <= amount <= u128::MAX, spec_out(s, i, j, amount, amp, di, yi) is Some, uncapped(s[j]), spec_out(s, i, j, amount, amp, di, yi)->0 > 0,
        spec_y_in(norms(s), norm(amount, s[i].decimals as int, 18, true), i, j, amp, di, yi)->0 >= 0,
    ensures ({
        let o = spec_out(s, i, j, amount, amp, di, yi)->0; let y = spec_y_in(norms(s), norm(amount, s[i].decimals as int, 18, true), i, j, amp, di, yi)->0;
        let p = p10(18 - s[j].decimals); o < s[j].amount && (s[j].amount - o) * p >= y + p }),
{
    let o = spec_out(s, i, j, amount, amp, di, yi)->0; let y = spec_y_in(norms(s), norm(amount, s[i].decimals as int, 18, true), i, j, amp, di, yi)->0;
    let p = p10(18 - s[j].decimals); let a = s[j].amount as int;
    lem_p10(18 - s[j].decimals); assert(ipow(10, 0) == 1);
    assert(norms(s)[j] == a * p) by { assert(a * 1 == a); }
    assert((o + 1) * p <= a * p - y) by { if s[j].decimals < 18 { lem_div(a * p - y, p); } else { assert(p == 1); assert((o + 1) * 1 == o + 1); assert(a * 1 == a); } }
    assert(o < a && (a - o) * p >= y + p) by (nonlinear_arith) requires (o + 1) * p <= a * p - y, y >= 0, p > 0;
}
/// after a buy the in reserve holds at least what the invariant demands, and one raw unit more
proof fn c12_buy(s: Seq<AssetReserve>, i: int, j: int, amount: int, amp: int, di: int, yi: int)
    requires 0 <= i, 0 <= j, 0 <= amount <= u128::MAX, spec_in(s, i, j, amount, amp, di, yi) is Some, uncapped(s[i]), spec_in(s, i, j, amount, amp, di, yi)->0 < u128::MAX,
    ensures ({
        let o = spec_in(s, i, j, amount, amp, di, yi)->0; let y = spec_y_out(norms(s), norm(amount, s[j].decimals as int, 18, false), i, j, amp, di, yi)->0;
        let p = p10(18 - s[i].decimals); o > 0 && (s[i].amount + o) * p >= y + p }),
{
    let o = spec_in(s, i, j, amount, amp, di, yi)->0; let y = spec_y_out(norms(s), norm(amount, s[j].decimals as int, 18, false), i, j, amp, di, yi)->0;
    let p = p10(18 - s[i].decimals); let a = s[i].amount as int;
    lem_p10(18 - s[i].decimals); assert(ipow(10, 0) == 1);
    assert(norms(s)[i] == a * p) by { assert(a * 1 == a); }
    assert(o > 0 && o * p >= y - a * p + p) by {
        if s[i].decimals < 18 {
            lem_div(y - a * p, p); lem_div_pos(y - a * p, p); let q = (y - a * p) / p; assert(o == q + 2);
            assert((q + 2) * p >= y - a * p + p) by (nonlinear_arith) requires y - a * p < q * p + p, p > 0;
        } else { assert(p == 1); assert(a * 1 == a && o * 1 == o); }
    }
    assert((a + o) * p >= y + p) by (nonlinear_arith) requires o * p >= y - a * p + p;
}
/// the fee is a part of what the trader would otherwise receive, and on top of what the trader pays
proof fn c12_fees(s: Seq<AssetReserve>, i: int, j: int, amount: int, amp: int, fee: int, di: int, yi: int)
    requires 0 <= fee <= 1_000_000,
    ensures spec_out_fee(s, i, j, amount, amp, fee, di, yi) matches Some(v) ==> v.0 + v.1 == spec_out(s, i, j, amount, amp, di, yi)->0 && 0 <= v.0 && 0 <= v.1 && v.1 * 1_000_000 <= spec_out(s, i, j, amount, amp, di, yi)->0 * fee,
        spec_in_fee(s, i, j, amount, amp, fee, di, yi) matches Some(v) ==> spec_in(s, i, j, amount, amp, di, yi)->0 >= 0 ==> v.0 - v.1 == spec_in(s, i, j, amount, amp, di, yi)->0 && v.1 * 1_000_000 >= spec_in(s, i, j, amount, amp, di, yi)->0 * fee && v.1 >= 0,
        i == j ==> spec_out_fee(s, i, j, amount, amp, fee, di, yi) is None && spec_in_fee(s, i, j, amount, amp, fee, di, yi) is None,
{ lem_fees(fee); }
}
fn main(){}
