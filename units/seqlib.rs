// ------------------------------------------------------------------------------------------------------
// Sequences of integers.
// ------------------------------------------------------------------------------------------------------
pub open spec fn ints(s: Seq<u128>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub open spec fn ints256(s: Seq<U256>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i]@) }
/// the sequence in ascending order
pub open spec fn srt(s: Seq<int>) -> Seq<int> { s.sort_by(|a: int, b: int| a <= b) }
pub proof fn lem_srt(s: Seq<int>)
    ensures srt(s).len() == s.len(), srt(s).to_multiset() =~= s.to_multiset(), forall|i: int, j: int| 0 <= i < j < s.len() ==> srt(s)[i] <= srt(s)[j],
        forall|i: int| 0 <= i < s.len() ==> #[trigger] s.contains(srt(s)[i]),
{
    let leq = |a: int, b: int| a <= b;
    assert(vstd::relations::total_ordering(leq));
    s.lemma_sort_by_ensures(leq);
    assert(vstd::relations::sorted_by(srt(s), leq));
    s.to_multiset_ensures(); srt(s).to_multiset_ensures();
    assert(srt(s).to_multiset().len() == s.to_multiset().len());
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies srt(s)[i] <= srt(s)[j] by { assert(leq(srt(s)[i], srt(s)[j])); }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s.contains(srt(s)[i]) by {
        assert(srt(s).contains(srt(s)[i]));
        assert(srt(s).to_multiset().count(srt(s)[i]) > 0);
    }
}
pub broadcast proof fn lem_srt_len(s: Seq<int>)
    ensures #![trigger srt(s)] srt(s).len() == s.len(), s.len() == 0 ==> srt(s) == Seq::<int>::empty(),
{ lem_srt(s); if s.len() == 0 { assert(srt(s) =~= Seq::<int>::empty()); } }
/// sorting forgets the order
pub proof fn lem_srt_perm(s: Seq<int>, t: Seq<int>)
    requires s.to_multiset() =~= t.to_multiset(),
    ensures srt(s) =~= srt(t),
{
    let leq = |a: int, b: int| a <= b;
    assert(vstd::relations::total_ordering(leq));
    s.lemma_sort_by_ensures(leq); t.lemma_sort_by_ensures(leq);
    vstd::seq_lib::lemma_sorted_unique(srt(s), srt(t), leq);
}
/// assumed: sorting a vector puts its values in ascending order
pub trait VxSort { spec fn vx_ints(&self) -> Seq<int>; fn sort(&mut self) ensures final(self).vx_ints() == srt(old(self).vx_ints()); }
impl VxSort for Vec<U256> {
    open spec fn vx_ints(&self) -> Seq<int> { ints256(self@) }
    #[verifier::external_body]
    fn sort(&mut self) { unimplemented!() }
}
impl VxSort for Vec<u128> {
    open spec fn vx_ints(&self) -> Seq<int> { ints(self@) }
    #[verifier::external_body]
    fn sort(&mut self) { unimplemented!() }
}
pub open spec fn sum(s: Seq<int>, k: int) -> int decreases k { if k <= 0 { 0 } else { sum(s, k - 1) + s[k - 1] } }
pub open spec fn noz(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 0 }
pub open spec fn allz(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] == 0 }
/// elements in the range of u128
pub open spec fn bnd(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] <= u128::MAX }
pub proof fn lem_sum(s: Seq<int>, k: int)
    requires 0 <= k <= s.len(), bnd(s),
    ensures 0 <= sum(s, k) <= k * u128::MAX,
    decreases k,
{ if k > 0 { lem_sum(s, k - 1); assert((k - 1) * u128::MAX + u128::MAX == k * u128::MAX) by (nonlinear_arith); } else { assert(k * u128::MAX == 0); } }
pub proof fn lem_sum_pos(s: Seq<int>, k: int)
    requires 0 < k <= s.len(), bnd(s), noz(s),
    ensures 0 < sum(s, k),
    decreases k,
{ lem_sum(s, k - 1); }
/// assumed: copying a slice clones every element
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(s@[i], #[trigger] r@[i]);
/// assumed: cloning a value of a Copy type yields an equal value
pub broadcast axiom fn ax_clone_copy<T: Copy>(a: T, b: T) ensures #[trigger] cloned(a, b) ==> a == b;
