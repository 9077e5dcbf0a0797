// ---- storage of the chain as explicit state: maps are finite maps (absent keys give None), value maps have a value for every key
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct OptMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> OptMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn get(&self, k: K) -> (r: Option<V>) ensures r == (if self@.contains_key(k) { Some(self@[k]) } else { None::<V> }) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_get(&self, k: K) -> (r: Result<V, ()>) ensures r == (if self@.contains_key(k) { Ok::<V, ()>(self@[k]) } else { Err::<V, ()>(()) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: K) -> (r: bool) ensures r == self@.contains_key(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: K) ensures final(self)@ == old(self)@.remove(k) { unimplemented!() }
    /// removes at most `limit` stored keys: no map of the chain holds 2^32
    #[verifier::external_body]
    pub fn clear(&mut self, limit: u32, cursor: Option<()>) ensures limit == u32::MAX ==> final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn take(&mut self, k: K) -> (r: Option<V>) ensures r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None::<V> }), final(self)@ == old(self)@.remove(k) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct ValMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> ValMap<K, V> {
    /// defined for every key
    pub uninterp spec fn view(&self) -> spec_fn(K) -> V;
    #[verifier::external_body]
    pub fn get(&self, k: K) -> (r: V) ensures r == (self@)(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) ensures final(self)@ == (|x: K| if x == k { v } else { (old(self)@)(x) }) { unimplemented!() }
}
impl<K, V> OptMap<K, V> {
    /// what ends a mutation of the stored option: None removes the key
    #[verifier::external_body]
    pub fn set(&mut self, k: K, v: Option<V>) ensures final(self)@ == (match v { Some(x) => old(self)@.insert(k, x), None => old(self)@.remove(k) }) { unimplemented!() }
}
impl<K, V> ValMap<K, V> {
    #[verifier::external_body]
    pub fn set(&mut self, k: K, v: V) ensures final(self)@ == (|x: K| if x == k { v } else { (old(self)@)(x) }) { unimplemented!() }
}
/// a stored value, and whether it was ever stored
pub struct Val<V> { pub v: V, pub e: bool }
impl<V> Val<V> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: V) ensures r == self.v { unimplemented!() }
    pub fn exists(&self) -> (r: bool) ensures r == self.e { self.e }
    pub fn put(&mut self, v: V) ensures final(self).v == v, final(self).e { self.v = v; self.e = true; }
}
pub use VxInt as Zero;
pub use VxInt as One;

/// a map with a default value, of which it matters which keys are stored
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct ValKeys<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K, V> ValKeys<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    pub uninterp spec fn none() -> V;
    pub open spec fn at(&self, k: K) -> V { if self@.contains_key(k) { self@[k] } else { Self::none() } }
    pub open spec fn with(&self, o: Self, k: K, v: V) -> bool { self@ =~= o@.insert(k, v) }
    pub open spec fn without(&self, o: Self, k: K) -> bool { self@ =~= o@.remove(k) }
    #[verifier::external_body]
    pub fn get(&self, k: K) -> (r: V) ensures r == self.at(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: K) -> (r: bool) ensures r == self@.contains_key(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) ensures final(self).with(*old(self), k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: K) ensures final(self).without(*old(self), k) { unimplemented!() }
}
