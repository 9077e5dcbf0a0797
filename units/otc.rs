//@ root pallets/otc/src
//@ include prelude.rs
//@ include storage.inc.rs
//@ dropgen T
//@ subst T::AssetId => u32
//@ subst T::AccountId => AccountId
//@ subst OriginFor<T> => Origin
//@ storage Orders NextOrderId
//@ call T::AssetRegistry::exists => w.exists
//@ call T::ExistentialDeposits::get => w.ed
//@ call T::ExistentialDepositMultiplier::get => w.ed_mult
//@ call T::Currency::transfer => w.cur.transfer
//@ call T::Currency::reserve_named => w.cur.reserve_named
//@ call T::Currency::unreserve_named => w.cur.unreserve_named
//@ call Self::deposit_event => w.deposit_event
//@ known ensure_signed
//@ include frame.inc.rs
//@ include currency.inc.rs
pub type Balance = u128;
pub type OrderId = u32;
pub const NAMED_RESERVE_ID: [u8; 8] = [0, 0, 0, 0, 0, 0, 0, 0];
//@ item pallets/otc/src/lib.rs::Error derive none
impl From<Error> for DispatchError { #[verifier::external_body] fn from(e: Error) -> (r: Self) { DispatchError::E } }
//@ item pallets/otc/src/lib.rs::Order derive Clone, Copy
//@ item pallets/otc/src/lib.rs::Event derive none
pub type Ordr = Order<AccountId, u32>;
pub struct World { pub Orders: OptMap<u32, Ordr>, pub NextOrderId: Val<u32>, pub cur: Cur }
pub uninterp spec fn registered(a: u32) -> bool;
pub uninterp spec fn ed(a: u32) -> u128;
pub uninterp spec fn ed_multiplier() -> u8;
impl World {
    #[verifier::external_body]
    pub fn exists(&self, a: u32) -> (r: bool) ensures r == registered(a) { unimplemented!() }
    #[verifier::external_body]
    pub fn ed(&self, a: &u32) -> (r: u128) ensures r == ed(*a) { unimplemented!() }
    #[verifier::external_body]
    pub fn ed_mult(&self) -> (r: u8) ensures r == ed_multiplier() { unimplemented!() }
    pub fn deposit_event(&self, e: Event) { }
}
pub open spec fn m128() -> int { u128::MAX as int }
pub open spec fn big_enough(a: u32, x: int) -> bool { ed(a) * ed_multiplier() <= m128() && x >= ed(a) * ed_multiplier() }
/// what a fill of an order of `o` moves: `who` pays x of asset_in to the owner, and gets y of asset_out out of the owner's reserve
pub open spec fn fill(o: Ordr, who: AccountId, x: int, y: int, b: u32, k: AccountId, d: Kind) -> int {
    at(b == o.asset_in && k == o.owner && d is Free, x) - at(b == o.asset_in && k == who && d is Free, x) - at(b == o.asset_out && k == o.owner && d is Reserved, y) + at(b == o.asset_out && k == who && d is Free, y)
}
pub open spec fn signed(o: Origin) -> Option<AccountId> { match signer(o) { Some(Some(a)) => Some(a), _ => None } }
pub struct Pallet { }
impl Pallet {
//@ fn pallets/otc/src/lib.rs::Pallet::ensure_min_order_amount(asset, amount)
//@ world
//@ ensures *final(w) == *old(w), r is Ok <==> big_enough(asset, amount as int),
//@ end
//@ fn pallets/otc/src/lib.rs::Pallet::execute_order(order, who, amount_in, amount_out)
//@ world
//@ ensures final(w).Orders == old(w).Orders, final(w).NextOrderId == old(w).NextOrderId,
//@ r is Ok ==> forall|b: u32, k: AccountId, d: Kind| #[trigger] (final(w).cur@)(b, k, d) == (old(w).cur@)(b, k, d) + fill(*order, *who, amount_in as int, amount_out as int, b, k, d),
//@ end
//@ fn pallets/otc/src/lib.rs::Pallet::place_order(origin, asset_in, asset_out, amount_in, amount_out, partially_fillable)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && registered(asset_in) && big_enough(asset_in, amount_in as int) && big_enough(asset_out, amount_out as int),
//@ r is Ok ==> old(w).NextOrderId.v < u32::MAX && final(w).NextOrderId.v == old(w).NextOrderId.v + 1,
//@ r is Ok ==> final(w).Orders@ == old(w).Orders@.insert(old(w).NextOrderId.v, Order { owner: signed(origin)->0, asset_in, asset_out, amount_in, amount_out, partially_fillable }),
//@ r is Ok ==> forall|b: u32, k: AccountId, d: Kind| #[trigger] (final(w).cur@)(b, k, d) == (old(w).cur@)(b, k, d) + at(b == asset_out && k == signed(origin)->0 && d is Reserved, amount_out as int) - at(b == asset_out && k == signed(origin)->0 && d is Free, amount_out as int),
//@ end
//@ fn pallets/otc/src/lib.rs::Pallet::partial_fill_order(origin, order_id, amount_in)
//@ world
//@ ensures final(w).NextOrderId == old(w).NextOrderId,
//@ r is Ok ==> signed(origin) is Some && old(w).Orders@.contains_key(order_id) && spec_partial(old(w).Orders@[order_id], amount_in as int) is Some,
//@ r is Ok ==> final(w).Orders@ == old(w).Orders@.insert(order_id, spec_partial(old(w).Orders@[order_id], amount_in as int)->0),
//@ r is Ok ==> forall|b: u32, k: AccountId, d: Kind| #[trigger] (final(w).cur@)(b, k, d) == (old(w).cur@)(b, k, d) + fill(old(w).Orders@[order_id], signed(origin)->0, amount_in as int, part_out(old(w).Orders@[order_id], amount_in as int), b, k, d),
//@ end
//@ fn pallets/otc/src/lib.rs::Pallet::fill_order(origin, order_id)
//@ world
//@ ensures final(w).NextOrderId == old(w).NextOrderId,
//@ r is Ok ==> signed(origin) is Some && old(w).Orders@.contains_key(order_id) && final(w).Orders@ == old(w).Orders@.remove(order_id),
//@ r is Ok ==> forall|b: u32, k: AccountId, d: Kind| #[trigger] (final(w).cur@)(b, k, d) == (old(w).cur@)(b, k, d) + fill(old(w).Orders@[order_id], signed(origin)->0, old(w).Orders@[order_id].amount_in as int, old(w).Orders@[order_id].amount_out as int, b, k, d),
//@ end
//@ fn pallets/otc/src/lib.rs::Pallet::cancel_order(origin, order_id)
//@ world
//@ ensures final(w).NextOrderId == old(w).NextOrderId,
//@ r is Ok ==> signed(origin) is Some && old(w).Orders@.contains_key(order_id) && final(w).Orders@ == old(w).Orders@.remove(order_id) && old(w).Orders@[order_id].owner == signed(origin)->0,
//@ r is Ok ==> forall|b: u32, k: AccountId, d: Kind| #[trigger] (final(w).cur@)(b, k, d) == (old(w).cur@)(b, k, d) + unreserved(old(w).Orders@[order_id], b, k, d),
//@ end
}
/// what the taker gets for x of an order
pub open spec fn part_out(o: Ordr, x: int) -> int { o.amount_out * x / (o.amount_in as int) }
pub open spec fn spec_partial(o: Ordr, x: int) -> Option<Ordr> {
    if !o.partially_fillable || o.amount_in == 0 || x > o.amount_in || part_out(o, x) > o.amount_out || !big_enough(o.asset_in, o.amount_in - x) || !big_enough(o.asset_out, o.amount_out - part_out(o, x)) { None }
    else { Some(Order { owner: o.owner, asset_in: o.asset_in, asset_out: o.asset_out, amount_in: (o.amount_in - x) as u128, amount_out: (o.amount_out - part_out(o, x)) as u128, partially_fillable: true }) }
}
pub open spec fn unreserved(o: Ordr, b: u32, k: AccountId, d: Kind) -> int { at(b == o.asset_out && k == o.owner && d is Free, o.amount_out as int) - at(b == o.asset_out && k == o.owner && d is Reserved, o.amount_out as int) }
// ---------------------------------------------------------------- property lemmas
/// what the open orders of k with an id below n still owe in asset a
pub open spec fn owed(m: Map<u32, Ordr>, a: u32, k: AccountId, n: int) -> int decreases n {
    if n <= 0 { 0 } else { owed(m, a, k, n - 1) + at(m.contains_key((n - 1) as u32) && m[(n - 1) as u32].owner == k && m[(n - 1) as u32].asset_out == a, m[(n - 1) as u32].amount_out as int) }
}
pub open spec fn owes(m: Map<u32, Ordr>, i: u32, a: u32, k: AccountId) -> int { at(m.contains_key(i) && m[i].owner == k && m[i].asset_out == a, m[i].amount_out as int) }
proof fn lem_owed(m: Map<u32, Ordr>, m2: Map<u32, Ordr>, i: u32, a: u32, k: AccountId, n: int)
    requires 0 <= n <= u32::MAX, forall|j: u32| j != i ==> (#[trigger] m.contains_key(j) == m2.contains_key(j)) && m[j] == m2[j],
    ensures owed(m2, a, k, n) == owed(m, a, k, n) + (if i < n { owes(m2, i, a, k) - owes(m, i, a, k) } else { 0 }),
    decreases n,
{ if n > 0 { lem_owed(m, m2, i, a, k, n - 1); let j = (n - 1) as u32; if j != i { assert(m.contains_key(j) == m2.contains_key(j)); } } }
/// every order has an id that was handed out, and every account's named reserve covers exactly what its open orders still owe
pub open spec fn wf(w: World) -> bool { forall|i: u32| #[trigger] w.Orders@.contains_key(i) ==> i < w.NextOrderId.v }
pub open spec fn backed(w: World) -> bool { forall|a: u32, k: AccountId| (#[trigger] (w.cur@)(a, k, Kind::Reserved)) >= owed(w.Orders@, a, k, w.NextOrderId.v as int) }
proof fn c42_placed(w: World, v: World, o: Ordr)
    requires wf(w), backed(w), w.NextOrderId.v < u32::MAX, v.NextOrderId.v == w.NextOrderId.v + 1, v.Orders@ == w.Orders@.insert(w.NextOrderId.v, o),
        forall|b: u32, k: AccountId, d: Kind| #[trigger] (v.cur@)(b, k, d) == (w.cur@)(b, k, d) + at(b == o.asset_out && k == o.owner && d is Reserved, o.amount_out as int) - at(b == o.asset_out && k == o.owner && d is Free, o.amount_out as int),
    ensures wf(v), backed(v), !w.Orders@.contains_key(w.NextOrderId.v),
{
    assert forall|a: u32, k: AccountId| (#[trigger] (v.cur@)(a, k, Kind::Reserved)) >= owed(v.Orders@, a, k, v.NextOrderId.v as int) by {
        lem_owed(w.Orders@, v.Orders@, w.NextOrderId.v, a, k, w.NextOrderId.v as int);
        assert((w.cur@)(a, k, Kind::Reserved) >= owed(w.Orders@, a, k, w.NextOrderId.v as int));
    }
}
/// a fill (of x for y) or a cancellation, that leaves the order with y less to pay out, or removes it
pub open spec fn shrinks(w: World, v: World, i: u32, y: int) -> bool {
    w.Orders@.contains_key(i) && 0 <= y <= w.Orders@[i].amount_out && v.NextOrderId == w.NextOrderId
    && (if v.Orders@.contains_key(i) { v.Orders@ == w.Orders@.insert(i, v.Orders@[i]) && v.Orders@[i].owner == w.Orders@[i].owner && v.Orders@[i].asset_out == w.Orders@[i].asset_out && v.Orders@[i].amount_out == w.Orders@[i].amount_out - y }
        else { v.Orders@ == w.Orders@.remove(i) && y == w.Orders@[i].amount_out })
    && (forall|b: u32, k: AccountId| #[trigger] (v.cur@)(b, k, Kind::Reserved) == (w.cur@)(b, k, Kind::Reserved) - at(b == w.Orders@[i].asset_out && k == w.Orders@[i].owner, y))
}
proof fn c42_backed(w: World, v: World, i: u32, y: int) requires wf(w), backed(w), shrinks(w, v, i, y), ensures wf(v), backed(v)
{
    assert forall|a: u32, k: AccountId| (#[trigger] (v.cur@)(a, k, Kind::Reserved)) >= owed(v.Orders@, a, k, v.NextOrderId.v as int) by {
        lem_owed(w.Orders@, v.Orders@, i, a, k, w.NextOrderId.v as int);
        assert((w.cur@)(a, k, Kind::Reserved) >= owed(w.Orders@, a, k, w.NextOrderId.v as int));
    }
}
/// a taker never gets more than the order's price gives, never all but a unit more than that rounds away, and what is left is offered at no lower a price for the taker;
/// the terms of what is left: same owner and assets, and neither side below the minimum
proof fn c42_price(o: Ordr, x: int)
    requires 0 <= x,
    ensures spec_partial(o, x) matches Some(p) ==> part_out(o, x) * o.amount_in <= o.amount_out * x < (part_out(o, x) + 1) * o.amount_in
        && 0 <= part_out(o, x) <= o.amount_out && p.amount_in + x == o.amount_in && p.amount_out + part_out(o, x) == o.amount_out
        && p.amount_out * o.amount_in >= o.amount_out * p.amount_in && p.owner == o.owner && p.asset_in == o.asset_in && p.asset_out == o.asset_out
        && big_enough(o.asset_in, p.amount_in as int) && big_enough(o.asset_out, p.amount_out as int),
{
    if spec_partial(o, x) is Some {
        let n = o.amount_out * x; let d = o.amount_in as int; let y = n / d;
        assert(n >= 0) by (nonlinear_arith) requires n == o.amount_out * x, o.amount_out >= 0, x >= 0;
        lem_div(n, d); lem_div_pos(n, d);
        assert((y + 1) * d == y * d + d) by (nonlinear_arith);
        assert((o.amount_out - y) * d >= o.amount_out * (d - x)) by (nonlinear_arith) requires y * d <= o.amount_out * x;
    }
}
/// the three calls that change an order are such shrinking steps
proof fn c42_steps(w: World, v: World, i: u32, who: AccountId, x: int)
    requires w.Orders@.contains_key(i), v.NextOrderId == w.NextOrderId, 0 <= x,
    ensures
        spec_partial(w.Orders@[i], x) is Some && v.Orders@ == w.Orders@.insert(i, spec_partial(w.Orders@[i], x)->0)
            && (forall|b: u32, k: AccountId, d: Kind| #[trigger] (v.cur@)(b, k, d) == (w.cur@)(b, k, d) + fill(w.Orders@[i], who, x, part_out(w.Orders@[i], x), b, k, d))
            ==> shrinks(w, v, i, part_out(w.Orders@[i], x)),
        v.Orders@ == w.Orders@.remove(i) && (forall|b: u32, k: AccountId, d: Kind| #[trigger] (v.cur@)(b, k, d) == (w.cur@)(b, k, d) + fill(w.Orders@[i], who, w.Orders@[i].amount_in as int, w.Orders@[i].amount_out as int, b, k, d))
            ==> shrinks(w, v, i, w.Orders@[i].amount_out as int),
        v.Orders@ == w.Orders@.remove(i) && (forall|b: u32, k: AccountId, d: Kind| #[trigger] (v.cur@)(b, k, d) == (w.cur@)(b, k, d) + unreserved(w.Orders@[i], b, k, d))
            ==> shrinks(w, v, i, w.Orders@[i].amount_out as int),
{ c42_price(w.Orders@[i], x); }
}
fn main(){}
