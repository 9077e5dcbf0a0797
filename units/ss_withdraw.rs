//@ root math/src
//@ include prelude.rs
//@ include fixed.rs
//@ include seqlib.rs
//@ include ss_solve.inc.rs
//@ include ss_loops.inc.rs
//@ include ss_base.inc.rs
//@ include ss_core_d.inc.rs
//@ include ss_core_y.inc.rs
//@ include ss_given.inc.rs
//@ include ss_norm.inc.rs
//@ include ss_lfee.inc.rs
//@ include ss_withdraw.inc.rs
/// burning shares for one asset lowers the invariant at most in proportion, and never pays out (with the fee) more than the reserve above the solved one
proof fn c13_withdraw(rs: Seq<AssetReserve>, shares: int, i: int, issuance: int, amp: int, fee: int, di: int, yi: int)
    requires 0 <= i, 0 <= shares <= issuance, 0 <= fee <= 1_000_000, spec_withdraw(rs, shares, i, issuance, amp, fee, di, yi) is Some,
    ensures ({ let s = norms(rs); let d0 = spec_d(s, amp, di)->0; let d1 = d0 - (shares * d0) / issuance; let y = spec_y(without(s, i), d1, amp, yi)->0;
        let dy = wrs(s, i, d0, d1, y, lfee(fee, rs.len() as int))[i] - spec_y(without(wrs(s, i, d0, d1, y, lfee(fee, rs.len() as int)), i), d1, amp, yi)->0;
        let v = spec_withdraw(rs, shares, i, issuance, amp, fee, di, yi)->0;
        0 <= dy && d1 * issuance >= (issuance - shares) * d0 && dy + y <= s[i] && v.0 == norm(dy, 18, rs[i].decimals as int, false) && v.1 == norm(s[i] - y - dy, 18, rs[i].decimals as int, false) }),
{
    let d0 = spec_d(norms(rs), amp, di)->0; let x = shares * d0; lem_div(x, issuance); let q = x / issuance;
    assert((d0 - q) * issuance >= (issuance - shares) * d0) by (nonlinear_arith) requires issuance * q <= x, x == shares * d0;
}
/// with at most 18 decimals the whole payout, fee included, is covered by the raw reserve
proof fn c13_covered(rs: Seq<AssetReserve>, i: int, dy: int, y: int)
    requires 0 <= i < rs.len(), rs[i].decimals <= 18, 0 <= dy, 0 <= y, dy + y <= norms(rs)[i],
    ensures norm(dy, 18, rs[i].decimals as int, false) + norm(norms(rs)[i] - y - dy, 18, rs[i].decimals as int, false) <= rs[i].amount, 0 <= norm(dy, 18, rs[i].decimals as int, false),
{
    let p = p10(18 - rs[i].decimals); let a = rs[i].amount as int; lem_p10(18 - rs[i].decimals);
    if rs[i].decimals < 18 {
        let u = norms(rs)[i] - y - dy; lem_div(dy, p); lem_div(u, p); lem_div_pos(dy, p); let q = dy / p; let w = u / p;
        assert(q + w <= a) by (nonlinear_arith) requires p * q <= dy, p * w <= u, u + dy <= a * p, p > 0;
    }
}
/// burning nothing pays nothing more than the solver's own rounding, burning for one's own shares is impossible beyond the issuance
proof fn c13_limits(rs: Seq<AssetReserve>, shares: int, i: int, issuance: int, amp: int, fee: int, di: int, yi: int)
    requires shares > issuance || issuance == 0 || i >= rs.len() || rs.len() <= 1,
    ensures spec_withdraw(rs, shares, i, issuance, amp, fee, di, yi) is None, spec_add(rs, shares, i, issuance, amp, fee, di, yi) is None,
{ }
/// minting an exact number of shares for one asset raises the invariant by at most the proportion (rounded down, compensated by the rounding of the charge)
proof fn c13_add(rs: Seq<AssetReserve>, shares: int, i: int, issuance: int, amp: int, fee: int, di: int, yi: int)
    requires 0 <= i, 0 <= shares <= issuance, spec_add(rs, shares, i, issuance, amp, fee, di, yi) is Some,
    ensures ({ let v = spec_add(rs, shares, i, issuance, amp, fee, di, yi)->0; let s = norms(rs); let d0 = spec_d(s, amp, di)->0; let d1 = d0 + (shares * d0) / issuance; let y = spec_y(without(s, i), d1, amp, yi)->0; let f = lfee(fee, rs.len() as int);
        let y1 = spec_y(without(ars(s, i, d0, d1, y, f), i), d1, amp, yi)->0;
        y1 >= y && v.0 == norm(y1 - ars(s, i, d0, d1, y, f)[i], 18, rs[i].decimals as int, true) && v.1 == norm(y1 - y, 18, rs[i].decimals as int, false) }),
{ }
}
fn main(){}
