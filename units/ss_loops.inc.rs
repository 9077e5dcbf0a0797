/// collecting the non-zero reserves
proof fn lem_take(s: Seq<int>, k: int)
    requires 0 <= k < s.len(),
    ensures s.take(k + 1) =~= s.take(k).push(s[k]),
        allz(s.take(k + 1)) <==> (allz(s.take(k)) && s[k] == 0),
        noz(s.take(k + 1)) <==> (noz(s.take(k)) && s[k] != 0),
{
    let a = s.take(k); let b = s.take(k + 1);
    assert(b =~= a.push(s[k]));
    assert(b[k] == s[k]);
    if noz(b) { assert forall|i: int| 0 <= i < a.len() implies a[i] != 0 by { assert(b[i] == a[i]); } }
    if noz(a) && s[k] != 0 { assert forall|i: int| 0 <= i < b.len() implies b[i] != 0 by { assert(i < k ==> b[i] == a[i]); } }
    if allz(b) { assert forall|i: int| 0 <= i < a.len() implies a[i] == 0 by { assert(b[i] == a[i]); } }
    if allz(a) && s[k] == 0 { assert forall|i: int| 0 <= i < b.len() implies b[i] == 0 by { assert(i < k ==> b[i] == a[i]); } }
}
proof fn lem_push(a: Seq<int>, b: Seq<int>, x: int)
    requires b.len() == a.len() + 1, forall|i: int| 0 <= i < a.len() ==> a[i] == b[i], b[a.len() as int] == x, noz(a), bnd(a), 0 < x <= u128::MAX,
    ensures b =~= a.push(x), noz(b), bnd(b),
{ assert(b =~= a.push(x)); }
/// sorting keeps the bounds
proof fn lem_srt_b(s: Seq<int>)
    requires bnd(s), noz(s),
    ensures bnd(srt(s)), noz(srt(s)), srt(s).len() == s.len(),
{
    lem_srt(s);
    assert forall|i: int| 0 <= i < srt(s).len() implies 0 <= #[trigger] srt(s)[i] <= u128::MAX && srt(s)[i] != 0 by {
        assert(s.contains(srt(s)[i]));
    }
}
