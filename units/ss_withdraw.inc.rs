/// a reserve less the fee on its part of a one-sided withdrawal (k == i: the withdrawn asset, y: its reserve at d1)
#[verifier::opaque] pub open spec fn wr(s: Seq<int>, i: int, k: int, d0: int, d1: int, y: int, f: int) -> Option<int> {
    if d0 == 0 { None } else {
        let e = if k == i { (s[k] * d1) / d0 - y } else { s[k] - (s[k] * d1) / d0 };
        if e < 0 || (f * e) / d18() > s[k] { None } else { Some(s[k] - (f * e) / d18()) }
    }
}
#[verifier::opaque] pub open spec fn wrs_ok(s: Seq<int>, i: int, m: int, d0: int, d1: int, y: int, f: int) -> bool { forall|k: int| 0 <= k < m ==> #[trigger] wr(s, i, k, d0, d1, y, f) is Some }
#[verifier::opaque] pub open spec fn wrs(s: Seq<int>, i: int, d0: int, d1: int, y: int, f: int) -> Seq<int> { Seq::new(s.len(), |k: int| wr(s, i, k, d0, d1, y, f)->0) }
pub open spec fn spec_withdraw(rs: Seq<AssetReserve>, shares: int, i: int, issuance: int, amp: int, fee: int, di: int, yi: int) -> Option<(int, int)> {
    let n = rs.len() as int; let s = norms(rs); let f = lfee(fee, n);
    if issuance == 0 || i >= n || shares > issuance || n <= 1 { None } else {
        match spec_d(s, amp, di) {
            None => None,
            Some(d0) => {
                let d1 = d0 - (shares * d0) / issuance;
                match spec_y(without(s, i), d1, amp, yi) {
                    None => None,
                    Some(y) => if !wrs_ok(s, i, n, d0, d1, y, f) { None } else {
                        match spec_y(without(wrs(s, i, d0, d1, y, f), i), d1, amp, yi) {
                            None => None,
                            Some(y1) => {
                                let dy = wrs(s, i, d0, d1, y, f)[i] - y1;
                                if dy < 0 || s[i] < y || s[i] - y < dy { None } else { Some((norm(dy, 18, rs[i].decimals as int, false), norm(s[i] - y - dy, 18, rs[i].decimals as int, false))) }
                            },
                        }
                    },
                }
            },
        }
    }
}
#[verifier::opaque] pub open spec fn ar(s: Seq<int>, i: int, k: int, d0: int, d1: int, y: int, f: int) -> Option<int> {
    if d0 == 0 { None } else {
        let e = if k == i { y - (s[k] * d1) / d0 } else { (s[k] * d1) / d0 - s[k] };
        if e < 0 || e > u128::MAX || (f * e) / d18() > s[k] { None } else { Some(s[k] - (f * e) / d18()) }
    }
}
#[verifier::opaque] pub open spec fn ars_ok(s: Seq<int>, i: int, m: int, d0: int, d1: int, y: int, f: int) -> bool { forall|k: int| 0 <= k < m ==> #[trigger] ar(s, i, k, d0, d1, y, f) is Some }
#[verifier::opaque] pub open spec fn ars(s: Seq<int>, i: int, d0: int, d1: int, y: int, f: int) -> Seq<int> { Seq::new(s.len(), |k: int| ar(s, i, k, d0, d1, y, f)->0) }
pub open spec fn spec_add(rs: Seq<AssetReserve>, shares: int, i: int, issuance: int, amp: int, fee: int, di: int, yi: int) -> Option<(int, int)> {
    let n = rs.len() as int; let s = norms(rs); let f = lfee(fee, n);
    if issuance == 0 || i >= n || shares > issuance || n <= 1 { None } else {
        match spec_d(s, amp, di) {
            None => None,
            Some(d0) => {
                let d1 = d0 + (shares * d0) / issuance;
                if d1 > u128::MAX { None } else {
                    match spec_y(without(s, i), d1, amp, yi) {
                        None => None,
                        Some(y) => if !ars_ok(s, i, n, d0, d1, y, f) { None } else {
                            let red = ars(s, i, d0, d1, y, f);
                            match spec_y(without(red, i), d1, amp, yi) {
                                None => None,
                                Some(y1) => if y1 < red[i] || y < red[i] || y1 < y { None } else { Some((norm(y1 - red[i], 18, rs[i].decimals as int, true), norm(y1 - y, 18, rs[i].decimals as int, false))) },
                            }
                        },
                    }
                }
            },
        }
    }
}
pub proof fn lem_wr(s: Seq<int>, i: int, k: int, d0: int, d1: int, y: int, f: int)
    requires 0 <= k < s.len(), 0 <= i < s.len(),
    ensures wr(s, i, k, d0, d1, y, f) == (if d0 == 0 { None } else {
        let e = if k == i { (s[k] * d1) / d0 - y } else { s[k] - (s[k] * d1) / d0 };
        if e < 0 || (f * e) / d18() > s[k] { None } else { Some(s[k] - (f * e) / d18()) }
    }),
        wrs_ok(s, i, k, d0, d1, y, f) && wr(s, i, k, d0, d1, y, f) is Some ==> wrs_ok(s, i, k + 1, d0, d1, y, f),
        wr(s, i, k, d0, d1, y, f) is None ==> !wrs_ok(s, i, s.len() as int, d0, d1, y, f),
        wrs(s, i, d0, d1, y, f).len() == s.len(), wrs(s, i, d0, d1, y, f)[k] == wr(s, i, k, d0, d1, y, f)->0,
        without(wrs(s, i, d0, d1, y, f).take(k + 1), i) == (if k == i { without(wrs(s, i, d0, d1, y, f).take(k), i) } else { without(wrs(s, i, d0, d1, y, f).take(k), i).push(wr(s, i, k, d0, d1, y, f)->0) }),
        k + 1 == s.len() ==> wrs(s, i, d0, d1, y, f).take(k + 1) == wrs(s, i, d0, d1, y, f),
{ reveal(wr); reveal(wrs); reveal(wrs_ok); let w = wrs(s, i, d0, d1, y, f); lem_without(w, k, i); assert(w.take(w.len() as int) =~= w); }
pub proof fn lem_wr0(s: Seq<int>, i: int, d0: int, d1: int, y: int, f: int)
    ensures wrs_ok(s, i, 0, d0, d1, y, f), wrs(s, i, d0, d1, y, f).len() == s.len(), without(wrs(s, i, d0, d1, y, f).take(0), i) == Seq::<int>::empty(),
{ reveal(wrs); reveal(wrs_ok); assert(without(wrs(s, i, d0, d1, y, f).take(0), i) =~= Seq::<int>::empty()); }
pub proof fn lem_ar(s: Seq<int>, i: int, k: int, d0: int, d1: int, y: int, f: int)
    requires 0 <= k < s.len(), 0 <= i < s.len(),
    ensures ar(s, i, k, d0, d1, y, f) == (if d0 == 0 { None } else {
        let e = if k == i { y - (s[k] * d1) / d0 } else { (s[k] * d1) / d0 - s[k] };
        if e < 0 || e > u128::MAX || (f * e) / d18() > s[k] { None } else { Some(s[k] - (f * e) / d18()) }
    }),
        ars_ok(s, i, k, d0, d1, y, f) && ar(s, i, k, d0, d1, y, f) is Some ==> ars_ok(s, i, k + 1, d0, d1, y, f),
        ar(s, i, k, d0, d1, y, f) is None ==> !ars_ok(s, i, s.len() as int, d0, d1, y, f),
        ars(s, i, d0, d1, y, f).len() == s.len(), ars(s, i, d0, d1, y, f)[k] == ar(s, i, k, d0, d1, y, f)->0,
        without(ars(s, i, d0, d1, y, f).take(k + 1), i) == (if k == i { without(ars(s, i, d0, d1, y, f).take(k), i) } else { without(ars(s, i, d0, d1, y, f).take(k), i).push(ar(s, i, k, d0, d1, y, f)->0) }),
        k + 1 == s.len() ==> ars(s, i, d0, d1, y, f).take(k + 1) == ars(s, i, d0, d1, y, f),
{ reveal(ar); reveal(ars); reveal(ars_ok); let w = ars(s, i, d0, d1, y, f); lem_without(w, k, i); assert(w.take(w.len() as int) =~= w); }
pub proof fn lem_ar0(s: Seq<int>, i: int, d0: int, d1: int, y: int, f: int)
    ensures ars_ok(s, i, 0, d0, d1, y, f), ars(s, i, d0, d1, y, f).len() == s.len(), without(ars(s, i, d0, d1, y, f).take(0), i) == Seq::<int>::empty(),
{ reveal(ars); reveal(ars_ok); assert(without(ars(s, i, d0, d1, y, f).take(0), i) =~= Seq::<int>::empty()); }
pub open spec fn okpair(r: Option<(u128, u128)>) -> Option<(int, int)> { match r { Some(v) => Some((v.0 as int, v.1 as int)), None => None } }
/// d0 * a / b for a <= b
pub proof fn lem_part(a: int, b: int, d: int)
    requires 0 <= a <= b, 0 < b, 0 <= d,
    ensures 0 <= a * d, 0 <= (a * d) / b <= d, a * d <= b * d,
{
    assert(0 <= a * d && a * d <= b * d) by (nonlinear_arith) requires 0 <= a <= b, 0 <= d;
    assert(b * d == d * b) by (nonlinear_arith); lem_div_is(b * d, b, d); lem_div_mono(a * d, b * d, b); lem_div_pos(a * d, b);
}
pub proof fn lem_parts(d1: int, d0: int)
    requires 0 <= d1 <= d0, 0 < d0,
    ensures forall|x: int| x >= 0 ==> 0 <= (#[trigger] (x * d1)) / d0 <= x,
{ assert forall|x: int| x >= 0 implies 0 <= (#[trigger] (x * d1)) / d0 <= x by { lem_part(d1, d0, x); assert(x * d1 == d1 * x) by (nonlinear_arith); } }
pub proof fn lem_uparts(d1: int, d0: int)
    requires 0 <= d0 <= d1, 0 < d0,
    ensures forall|x: int| x >= 0 ==> x <= (#[trigger] (x * d1)) / d0,
{ assert forall|x: int| x >= 0 implies x <= (#[trigger] (x * d1)) / d0 by { assert(x * d0 <= x * d1) by (nonlinear_arith) requires 0 <= x, d0 <= d1; lem_div_is(x * d0, d0, x); lem_div_mono(x * d0, x * d1, d0); } }
//@ fn math/src/stableswap/math.rs::calculate_withdraw_one_asset(reserves, shares, asset_index, share_asset_issuance, amplification, fee)
//@ meta gen.reserves=gen_rs(r, g)
//@ meta gen.shares=gen_part(r, g, share_asset_issuance)
//@ meta gen.asset_index=gen_idx(r, reserves)
//@ meta gen.share_asset_issuance=gen_iss(r, g, reserves)
//@ meta gen.amplification=gen_amp(r, g)
//@ meta gen.fee=gen_fee(r)
//@ meta inst=::<64, 128>
//@ attr #[verifier::spinoff_prover] #[verifier::rlimit(50)]
//@ requires reserves@.len() < usize::MAX
//@ ensures okpair(r) == spec_withdraw(reserves@, shares as int, asset_index as int, share_asset_issuance as int, amplification as int, fee@, D as int, Y as int)
//@ pre broadcast use vxf, lem_norm; let ghost f0 = fee@; let ghost s = norms(reserves@); let ghost i = asset_index as int; let ghost f = lfee(f0, s.len() as int);
//@ proof { assert(s.take(s.len() as int) =~= s); assert forall|k: int| 0 <= k < s.len() implies 0 <= #[trigger] s[k] <= u128::MAX by { lem_norm(reserves@[k].amount as int, reserves@[k].decimals as int, 18, false); } if 1 < reserves@.len() <= u64::MAX { lem_lfee(fee@, reserves@.len() as int); lem_fees18(lfee(fee@, reserves@.len() as int), 0); } }
//@ after initial_d
//@ let ghost d0 = initial_d as int; proof { if share_asset_issuance > 0 { lem_part(shares as int, share_asset_issuance as int, d0); } }
//@ after d1
//@ let ghost e1 = d1@; proof { if d0 > 0 { lem_parts(e1, d0); } }
//@ loop 0
//@ invariant ints(reserves@) =~= s, ints($a@) =~= without(s.take($k as int), i),
//@ loop-end 0
//@ proof { lem_without(s, $k - 1, i); }
//@ loop 1
//@ invariant ints256($a@) =~= s.take($k as int),
//@ after y_hp
//@ proof { lem_wr0(s, i, d0, e1, y as int, f); }
//@ loop 2
//@ invariant ints256(xp_hp@) =~= s, fee@ == f, wrs_ok(s, i, $k as int, d0, e1, y as int, f), ints(reserves_reduced@) =~= without(wrs(s, i, d0, e1, y as int, f).take($k as int), i), $k > i ==> asset_reserve == wrs(s, i, d0, e1, y as int, f)[i],
//@ $k == s.len() ==> ints(reserves_reduced@) =~= without(wrs(s, i, d0, e1, y as int, f), i),
//@ loop-start 2
//@ proof { lem_wr(s, i, $k as int, d0, e1, y as int, f); assert(ints256(xp_hp@)[$k as int] == xp_hp@[$k as int]@); }
//@ end
//@ fn math/src/stableswap/math.rs::calculate_add_one_asset(reserves, shares, asset_index, share_asset_issuance, amplification, fee)
//@ meta gen.reserves=gen_rs(r, g)
//@ meta gen.shares=gen_part(r, g, share_asset_issuance)
//@ meta gen.asset_index=gen_idx(r, reserves)
//@ meta gen.share_asset_issuance=gen_iss(r, g, reserves)
//@ meta gen.amplification=gen_amp(r, g)
//@ meta gen.fee=gen_fee(r)
//@ meta inst=::<64, 128>
//@ attr #[verifier::spinoff_prover] #[verifier::rlimit(50)]
//@ requires reserves@.len() < usize::MAX
//@ ensures okpair(r) == spec_add(reserves@, shares as int, asset_index as int, share_asset_issuance as int, amplification as int, fee@, D as int, Y as int)
//@ pre broadcast use vxf, lem_norm; let ghost f0 = fee@; let ghost s = norms(reserves@); let ghost i = asset_index as int; let ghost f = lfee(f0, s.len() as int);
//@ proof { assert(s.take(s.len() as int) =~= s); assert forall|k: int| 0 <= k < s.len() implies 0 <= #[trigger] s[k] <= u128::MAX by { lem_norm(reserves@[k].amount as int, reserves@[k].decimals as int, 18, false); } if 1 < reserves@.len() <= u64::MAX { lem_lfee(fee@, reserves@.len() as int); lem_fees18(lfee(fee@, reserves@.len() as int), 0); } }
//@ after initial_d
//@ let ghost d0 = initial_d as int; proof { if share_asset_issuance > 0 { lem_part(shares as int, share_asset_issuance as int, d0); } }
//@ after d1
//@ let ghost e1 = d1@; proof { if d0 > 0 { lem_uparts(e1, d0); } }
//@ loop 0
//@ invariant ints(reserves@) =~= s, ints($a@) =~= without(s.take($k as int), i),
//@ loop-end 0
//@ proof { lem_without(s, $k - 1, i); }
//@ loop 1
//@ invariant ints256($a@) =~= s.take($k as int),
//@ after y_hp
//@ proof { lem_ar0(s, i, d0, e1, y as int, f); }
//@ loop 2
//@ invariant ints256(xp_hp@) =~= s, fee@ == f, ars_ok(s, i, $k as int, d0, e1, y as int, f), ints(reserves_reduced@) =~= without(ars(s, i, d0, e1, y as int, f).take($k as int), i), $k > i ==> asset_reserve == ars(s, i, d0, e1, y as int, f)[i],
//@ $k == s.len() ==> ints(reserves_reduced@) =~= without(ars(s, i, d0, e1, y as int, f), i),
//@ loop-start 2
//@ proof { lem_ar(s, i, $k as int, d0, e1, y as int, f); assert(ints256(xp_hp@)[$k as int] == xp_hp@[$k as int]@); }
//@ end
