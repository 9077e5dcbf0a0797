/// the sequence without its i-th element
pub open spec fn without(s: Seq<int>, i: int) -> Seq<int> { if 0 <= i < s.len() { s.remove(i) } else { s } }
pub proof fn lem_without(u: Seq<int>, k: int, i: int)
    requires 0 <= k < u.len(), 0 <= i < u.len(),
    ensures without(u.take(k + 1), i) =~= (if k == i { without(u.take(k), i) } else { without(u.take(k), i).push(u[k]) }),
{ }
/// the other reserve after adding `amount` to one of them (at an unchanged invariant)
pub open spec fn spec_y_in(s: Seq<int>, amount: int, i: int, j: int, amp: int, di: int, yi: int) -> Option<int> {
    if i >= s.len() || j >= s.len() || s[i] + amount > u128::MAX { None } else {
        match spec_d(s, amp, di) { None => None, Some(d) => spec_y(without(s.update(i, s[i] + amount), j), d, amp, yi) }
    }
}
pub open spec fn spec_y_out(s: Seq<int>, amount: int, i: int, j: int, amp: int, di: int, yi: int) -> Option<int> {
    if i >= s.len() || j >= s.len() || s[j] < amount { None } else {
        match spec_d(s, amp, di) { None => None, Some(d) => spec_y(without(s.update(j, s[j] - amount), i), d, amp, yi) }
    }
}
//@ fn math/src/stableswap/math.rs::calculate_y_given_in(amount, idx_in, idx_out, reserves, amplification)
//@ meta inst=::<64, 128>
//@ meta gen.reserves=gen_xp(r, g)
//@ meta gen.amount=gen_amt(r, g, reserves)
//@ meta gen.idx_in=gen_idx(r, reserves)
//@ meta gen.idx_out=gen_idx(r, reserves)
//@ meta gen.amplification=gen_amp(r, g)
//@ requires reserves@.len() < usize::MAX
//@ ensures okint(r) == spec_y_in(ints(reserves@), amount as int, idx_in as int, idx_out as int, amplification as int, D as int, Y as int)
//@ pre broadcast use vx;
//@ let ghost u = ints(reserves@).update(idx_in as int, reserves@[idx_in as int] + amount);
//@ proof { assert(u.take(u.len() as int) =~= u); }
//@ loop 0
//@ invariant d == spec_d(ints(reserves@), amplification as int, D as int)->0, new_reserve_in == reserves@[idx_in as int] + amount, ints($a@) =~= without(u.take($k as int), idx_out as int),
//@ loop-end 0
//@ proof { lem_without(u, $k - 1, idx_out as int); }
//@ end
//@ fn math/src/stableswap/math.rs::calculate_y_given_out(amount, idx_in, idx_out, reserves, amplification)
//@ meta inst=::<64, 128>
//@ meta gen.reserves=gen_xp(r, g)
//@ meta gen.amount=gen_amt(r, g, reserves)
//@ meta gen.idx_in=gen_idx(r, reserves)
//@ meta gen.idx_out=gen_idx(r, reserves)
//@ meta gen.amplification=gen_amp(r, g)
//@ requires reserves@.len() < usize::MAX
//@ ensures okint(r) == spec_y_out(ints(reserves@), amount as int, idx_in as int, idx_out as int, amplification as int, D as int, Y as int)
//@ pre broadcast use vx;
//@ let ghost u = ints(reserves@).update(idx_out as int, reserves@[idx_out as int] - amount);
//@ proof { assert(u.take(u.len() as int) =~= u); }
//@ loop 0
//@ invariant d == spec_d(ints(reserves@), amplification as int, D as int)->0, new_reserve_out == reserves@[idx_out as int] - amount, ints($a@) =~= without(u.take($k as int), idx_in as int),
//@ loop-end 0
//@ proof { lem_without(u, $k - 1, idx_in as int); }
//@ end
