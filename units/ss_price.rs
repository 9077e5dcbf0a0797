//@ root math/src
//@ include prelude.rs
//@ include fixed.rs
//@ subst crate::support::rational::Rounding => RatRounding
//@ subst rational.rs|Rounding => RatRounding
//@ include seqlib.rs
//@ include ss_solve.inc.rs
//@ include ss_loops.inc.rs
//@ include ss_base.inc.rs
//@ include ss_core_d.inc.rs
//@ include ss_norm.inc.rs
//@ include rational.inc.rs
//@ include ss_lfee.inc.rs
//@ include ss_share.inc.rs
pub open spec fn optfx(r: Option<FixedU128>) -> Option<int> { match r { Some(v) => Some(v@), None => None } }
pub open spec fn okpair(r: Option<(u128, u128)>) -> Option<(int, int)> { match r { Some(v) => Some((v.0 as int, v.1 as int)), None => None } }
pub open spec fn fxratio(p: int, q: int) -> Option<int> { if q == 0 { None } else { fit128((p * d18()) / q) } }
/// price of reserve `j` in units of reserve `i`: x_i (A n x_j + c) / (x_j (A n x_i + c)) with c = d^(n+1) / (n^n prod x), the fee taken off the denominator
pub open spec fn spec_pair_price(rs: Seq<AssetReserve>, amp: int, d: int, i: int, j: int, fee: Option<Permill>) -> Option<int> {
    let n = rs.len() as int; let s = norms(rs); let ann = amp * n;
    if n <= 1 || i >= n || j >= n || ann > u128::MAX { None } else {
        match fold(d, n, srt(s), n) {
            None => None,
            Some(c) => {
                let num = s[i] * (ann * s[j] + c); let den = s[j] * (ann * s[i] + c);
                if ann * s[j] + c >= p256() || num >= p256() || ann * s[i] + c >= p256() || den >= p256() { None } else {
                    let q = rden(num, den, RatRounding::Down);
                    fxratio(rnum(num, den, RatRounding::Down), match fee { None => q, Some(f) => ((1_000_000 - f@) * q) / 1_000_000 })
                }
            },
        }
    }
}
//@ fn math/src/stableswap/math.rs::calculate_spot_price_between_two_stable_assets(reserves, amplification, d, asset_in_idx, asset_out_idx, fee)
//@ meta gen.reserves=gen_rs(r, g)
//@ meta gen.amplification=gen_amp(r, g)
//@ meta gen.d=gen_d(r, g, [min(2**128-1, x.d['amount'] * 10 ** max(0, 18 - x.d['decimals'])) for x in reserves])
//@ meta gen.asset_in_idx=gen_idx(r, reserves)
//@ meta gen.asset_out_idx=gen_idx(r, reserves)
//@ attr #[verifier::spinoff_prover] #[verifier::allow_complex_invariants]
//@ ensures optfx(r) == spec_pair_price(reserves@, amplification as int, d as int, asset_in_idx as int, asset_out_idx as int, fee)
//@ pre broadcast use vxf, lem_srt_len, lem_norm; let ghost s = norms(reserves@); let ghost d0 = d as int; proof { lem_srt(s); assert(bnd(s)); lem_bnd_srt(s); }
//@ loop 0
//@ invariant ints256($a@) =~= srt(s).take($k as int), ints(n_reserves@) == srt(s),
//@ loop-start 0
//@ proof { assert(ints(n_reserves@)[$k as int] == n_reserves@[$k as int]); }
//@ after reserves_hp
//@ proof { assert(srt(s).take(srt(s).len() as int) =~= srt(s)); assert(ints256(reserves_hp@) =~= srt(s)); }
//@ loop 1
//@ invariant_except_break $r == Some($a), fold(d0, n@, srt(s), $k as int) == Some($a@), invariant ints256(reserves_hp@) == srt(s), ensures match $r { Some(v) => fold(d0, n@, srt(s), s.len() as int) == Some(v@), None => fold(d0, n@, srt(s), s.len() as int) is None },
//@ loop-start 1
//@ proof { assert(ints256(reserves_hp@)[$k as int] == reserves_hp@[$k as int]@); lem_fold_none(d0, n@, srt(s), $k + 1, s.len() as int); }
//@ end
/// c of the share price: d * prod d / (n x_i), in 18-decimal arithmetic
pub open spec fn fxfold(d: int, n: int, s: Seq<int>, k: int) -> Option<int> decreases k {
    if k <= 0 { Some(d18()) } else {
        match fxfold(d, n, s, k - 1) {
            None => None,
            Some(a) => if n * s[k - 1] > u128::MAX { None } else { match fxratio(d, n * s[k - 1]) { None => None, Some(q) => fit128((a * q) / d18()) } },
        }
    }
}
proof fn lem_fxfold_none(d: int, n: int, s: Seq<int>, k: int, m: int)
    requires 0 <= k <= m,
    ensures fxfold(d, n, s, k) is None ==> fxfold(d, n, s, m) is None,
    decreases m - k,
{ if k < m { lem_fxfold_none(d, n, s, k, m - 1); } }
pub open spec fn spec_price_at(rs: Seq<AssetReserve>, amp: int, issuance: int, i: int, d: int) -> Option<(int, int)> {
    let n = rs.len() as int; let s = norms(rs);
    match fxfold(d, n, s, n) {
        None => None,
        Some(a) => match fit128((a * d) / d18()) {
            None => None,
            Some(c) => {
                let ann = amp * n; let xann = s[i] * ann;
                let p1 = d * xann; let p2 = s[i] * c * (n + 1); let p3 = s[i] * d;
                let num = p1 + p2 - p3; let den = issuance * (xann + c); let scale = p10(imax(18 - rs[i].decimals, 0));
                if ann > u128::MAX || p1 >= p256() || p2 >= p256() || p1 + p2 >= p256() || num < 0 || xann + c >= p256() || den >= p256() { None } else if den * scale < p256() {
                    Some((rnum(num, den * scale, RatRounding::Down), rden(num, den * scale, RatRounding::Down)))
                } else {
                    Some((rnum(num / scale, den, RatRounding::Down), rden(num / scale, den, RatRounding::Down)))
                }
            },
        },
    }
}
/// price of one share in units of asset i, as a fraction
pub open spec fn spec_share_price(rs: Seq<AssetReserve>, amp: int, issuance: int, i: int, d: Option<u128>, di: int) -> Option<(int, int)> {
    if rs.len() <= 1 || i >= rs.len() { None } else {
        match (match d { Some(v) => Some(v as int), None => spec_d(norms(rs), amp, di) }) { None => None, Some(v) => spec_price_at(rs, amp, issuance, i, v) }
    }
}
//@ fn math/src/stableswap/math.rs::calculate_share_price(reserves, amplification, issuance, asset_idx, provided_d)
//@ meta inst=::<64>
//@ meta gen.reserves=gen_rs(r, g)
//@ meta gen.amplification=gen_amp(r, g)
//@ meta gen.issuance=gen_iss(r, g, reserves)
//@ meta gen.asset_idx=gen_idx(r, reserves)
//@ meta gen.provided_d=V('None') if r.random() < .5 else V('Some', (gen_iss(r, g, reserves),))
//@ attr #[verifier::spinoff_prover] #[verifier::allow_complex_invariants]
//@ ensures okpair(r) == spec_share_price(reserves@, amplification as int, issuance as int, asset_idx as int, provided_d, D as int)
//@ pre broadcast use vxf, lem_norm; let ghost s = norms(reserves@); let ghost n0 = reserves@.len() as int;
//@ proof { lem_p10(imax(18 - reserves@[asset_idx as int].decimals, 0)); }
//@ after n_reserves
//@ let ghost d0 = d as int; proof { assert(n0 == s.len()); }
//@ loop 0
//@ invariant_except_break $r == Some($a), fxfold(d0, n0, s, $k as int) == Some($a@), invariant ints(n_reserves@) == s, ensures match $r { Some(v) => fxfold(d0, n0, s, n0) == Some(v@), None => fxfold(d0, n0, s, n0) is None },
//@ loop-start 0
//@ proof { assert(ints(n_reserves@)[$k as int] == n_reserves@[$k as int]); lem_fxfold_none(d0, n0, s, $k + 1, n0); }
//@ end
pub open spec fn prices_ok(rs: Seq<AssetReserve>, amp: int, issuance: int, d: int, k: int) -> bool { forall|i: int| 0 <= i < k ==> #[trigger] spec_price_at(rs, amp, issuance, i, d) is Some }
pub open spec fn pairs(s: Seq<(u128, u128)>) -> Seq<(int, int)> { Seq::new(s.len(), |i: int| (s[i].0 as int, s[i].1 as int)) }
pub open spec fn spec_share_prices(rs: Seq<AssetReserve>, amp: int, issuance: int, di: int) -> Option<Seq<(int, int)>> {
    if rs.len() <= 1 { None } else {
        match spec_d(norms(rs), amp, di) { None => None, Some(d) => if !prices_ok(rs, amp, issuance, d, rs.len() as int) { None } else { Some(Seq::new(rs.len(), |i: int| spec_price_at(rs, amp, issuance, i, d)->0)) } }
    }
}
//@ fn math/src/stableswap/math.rs::calculate_share_prices(reserves, amplification, issuance)
//@ meta inst=::<64>
//@ meta gen.reserves=gen_rs(r, g)
//@ meta gen.amplification=gen_amp(r, g)
//@ meta gen.issuance=gen_iss(r, g, reserves)
//@ ensures (match r { Some(v) => Some(pairs(v@)), None => None }) == spec_share_prices(reserves@, amplification as int, issuance as int, D as int)
//@ pre broadcast use vxf; let ghost p = Seq::new(reserves@.len(), |i: int| spec_price_at(reserves@, amplification as int, issuance as int, i, spec_d(norms(reserves@), amplification as int, D as int)->0)->0); proof { assert(p.take(p.len() as int) =~= p); }
//@ loop 0
//@ invariant prices_ok(reserves@, amplification as int, issuance as int, d as int, $k as int), pairs(r@) =~= p.take($k as int),
//@ loop-start 0
//@ proof { assert(spec_price_at(reserves@, amplification as int, issuance as int, $k as int, d as int) == spec_price_at(reserves@, amplification as int, issuance as int, $k as int, d as int)); }
//@ end
proof fn lem_bnd_srt(s: Seq<int>)
    requires bnd(s),
    ensures bnd(srt(s)), srt(s).len() == s.len(),
{ lem_srt(s); assert forall|i: int| 0 <= i < srt(s).len() implies 0 <= #[trigger] srt(s)[i] <= u128::MAX by { assert(s.contains(srt(s)[i])); } }
pub type AssetId = u32;
pub open spec fn res(a: Seq<(u32, AssetReserve)>) -> Seq<AssetReserve> { Seq::new(a.len(), |i: int| a[i].1) }
/// place of an asset in the pool: the first one of that id
pub open spec fn place(a: Seq<(u32, AssetReserve)>, id: u32, k: int) -> Option<int> decreases k {
    if k <= 0 { None } else { match place(a, id, k - 1) { Some(p) => Some(p), None => if a[k - 1].0 == id { Some(k - 1) } else { None } } }
}
proof fn lem_place(a: Seq<(u32, AssetReserve)>, id: u32, k: int, m: int)
    requires 0 <= k <= m,
    ensures place(a, id, k) is Some ==> place(a, id, m) == place(a, id, k), place(a, id, k) matches Some(p) ==> 0 <= p < k, place(a, id, 0) is None,
        k > 0 && place(a, id, k - 1) is None ==> place(a, id, k) == (if a[k - 1].0 == id { Some(k - 1) } else { None::<int> }),
    decreases m, k,
{ if k < m { lem_place(a, id, k, m - 1); } if k > 0 { lem_place(a, id, k - 1, k - 1); } }
pub open spec fn plus(a: Seq<(u32, AssetReserve)>, id: u32, amount: int) -> Seq<(u32, AssetReserve)> {
    Seq::new(a.len(), |i: int| if a[i].0 == id { (a[i].0, AssetReserve { amount: (a[i].1.amount + amount) as u128, decimals: a[i].1.decimals }) } else { a[i] })
}
pub open spec fn plus_ok(a: Seq<(u32, AssetReserve)>, id: u32, amount: int, k: int) -> bool { forall|i: int| 0 <= i < k ==> (#[trigger] a[i]).0 != id || a[i].1.amount + amount <= u128::MAX }
/// price of asset_out in units of asset_in, either of which may be the share
pub open spec fn spec_spot(pool: u32, a: Seq<(u32, AssetReserve)>, amp: int, ain: u32, aout: u32, issuance: int, min: int, fee: Option<Permill>) -> Option<int> {
    let n = a.len() as int; let f = match fee { Some(x) => x@, None => 0 };
    match spec_d(norms(res(a)), amp, 64) {
        None => None,
        Some(d) => if ain != pool && aout != pool {
            match (place(a, ain, n), place(a, aout, n)) { (Some(i), Some(j)) => spec_pair_price(res(a), amp, d, i, j, fee), _ => None }
        } else if ain == pool && aout != pool {
            match place(a, aout, n) { None => None, Some(j) => match spec_shares_for(res(a), j, min, amp, issuance, f, 64) { None => None, Some(x) => fxratio(x, min) } }
        } else if ain != pool && aout == pool {
            if !plus_ok(a, ain, min, n) { None } else { match spec_shares(res(a), res(plus(a, ain, min)), amp, issuance, f, 64) { None => None, Some(x) => fxratio(min, x) } }
        } else { None },
    }
}
proof fn lem_res(a: Seq<(u32, AssetReserve)>, k: int)
    requires 0 <= k < a.len(),
    ensures res(a.take(k + 1)) =~= res(a.take(k)).push(a[k].1),
{ }
//@ fn math/src/stableswap/math.rs::calculate_spot_price(pool_id, asset_reserves, amplification, asset_in, asset_out, share_issuance, min_trade_amount, fee)
//@ meta gen.pool_id=r.randint(0, 3)
//@ meta gen.asset_in=r.randint(0, 4)
//@ meta gen.asset_out=r.randint(0, 4)
//@ meta gen.amplification=gen_amp(r, g)
//@ meta gen.asset_reserves=[(r.choice([k + 1, k + 1, k + 1, 1]), x) for k, x in enumerate(gen_rs(r, g))]
//@ meta gen.share_issuance=gen_iss(r, g, [x[1] for x in asset_reserves])
//@ meta gen.min_trade_amount=r.choice([1, 1000, 10**6, 10**12, g.num(10**20)])
//@ attr #[verifier::spinoff_prover] #[verifier::allow_complex_invariants]
//@ ensures optfx(r) == spec_spot(pool_id, asset_reserves@, amplification as int, asset_in, asset_out, share_issuance as int, min_trade_amount as int, fee)
//@ pre hide(spec_pair_price); hide(spec_shares); hide(spec_shares_for); hide(spec_d); hide(norms); hide(place); broadcast use vxf, ax_clone_copy; let ghost a = asset_reserves@; let ghost n = a.len() as int; let ghost pl = plus(a, asset_in, min_trade_amount as int);
//@ proof { assert(a.take(n) =~= a); assert(pl.take(n) =~= pl); lem_place(a, asset_in, n, n); lem_place(a, asset_out, n, n); }
//@ loop 0
//@ invariant $s@ =~= a, $a@ =~= res(a.take($k as int)),
//@ loop-end 0
//@ proof { lem_res(a, $k - 1); }
//@ after reserves
//@ proof { assert(reserves@ =~= res(a)); }
//@ loop 1
//@ invariant_except_break $a is None, place(a, asset_in, $k as int) is None, invariant true, ensures (match $a { Some(p) => Some(p as int), None => None }) == place(a, asset_in, n),
//@ loop-start 1
//@ proof { lem_place(a, asset_in, $k + 1, n); }
//@ loop 2
//@ invariant_except_break $a is None, place(a, asset_out, $k as int) is None, invariant true, ensures (match $a { Some(p) => Some(p as int), None => None }) == place(a, asset_out, n),
//@ loop-start 2
//@ proof { lem_place(a, asset_out, $k + 1, n); }
//@ loop 3
//@ invariant_except_break $a is None, place(a, asset_out, $k as int) is None, invariant true, ensures (match $a { Some(p) => Some(p as int), None => None }) == place(a, asset_out, n),
//@ loop-start 3
//@ proof { lem_place(a, asset_out, $k + 1, n); }
//@ loop 4
//@ invariant updated_reserves@.len() == n, plus_ok(a, asset_in, min_trade_amount as int, $k as int), forall|i: int| 0 <= i < n ==> #[trigger] updated_reserves@[i] == (if i < $k { pl[i] } else { a[i] }),
//@ loop-start 4
//@ proof { assert(a[$k as int] == a[$k as int]); }
//@ loop 5
//@ invariant updated_reserves@ =~= pl, $a@ =~= res(pl.take($k as int)),
//@ loop-end 5
//@ proof { lem_res(pl, $k - 1); }
//@ after update_reserves
//@ proof { assert(update_reserves@ =~= res(pl)); }
//@ end
proof fn c15_limits()
    ensures MAX_D_ITERATIONS == 64,
{ }
/// a pool of one asset, an unknown asset, or the share against itself has no price
proof fn c15_none(pool: u32, a: Seq<(u32, AssetReserve)>, amp: int, ain: u32, aout: u32, issuance: int, min: int, fee: Option<Permill>)
    ensures ain == pool && aout == pool || (ain != pool && aout != pool && (place(a, ain, a.len() as int) is None || place(a, aout, a.len() as int) is None)) ==> spec_spot(pool, a, amp, ain, aout, issuance, min, fee) is None,
        a.len() <= 1 ==> (ain != pool || aout != pool) ==> spec_spot(pool, a, amp, ain, aout, issuance, min, fee) is None,
{ }
/// a fee never lowers the price of the bought asset
proof fn c15_fee(p: int, q: int, f: int, g: int)
    requires 0 <= p, 0 < q, 0 <= f <= g <= 1_000_000, ((1_000_000 - g) * q) / 1_000_000 > 0,
    ensures (p * d18()) / (((1_000_000 - f) * q) / 1_000_000) <= (p * d18()) / (((1_000_000 - g) * q) / 1_000_000),
{
    assert((1_000_000 - g) * q <= (1_000_000 - f) * q) by (nonlinear_arith) requires f <= g, q > 0;
    lem_div_mono((1_000_000 - g) * q, (1_000_000 - f) * q, 1_000_000);
    let u = ((1_000_000 - g) * q) / 1_000_000; let v = ((1_000_000 - f) * q) / 1_000_000;
    assert(0 <= p * d18()) by (nonlinear_arith) requires p >= 0, d18() > 0;
    vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(p * d18(), u, v);
}
}
fn main(){}
