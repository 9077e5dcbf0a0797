// Curve's integer Newton iterations (every intermediate value is a 256-bit number; leaving that range fails)
/// k-fold of a -> floor(a*d / (s[i]*n)), starting from d
pub open spec fn fold(d: int, n: int, s: Seq<int>, k: int) -> Option<int> decreases k {
    if k <= 0 { Some(d) } else {
        match fold(d, n, s, k - 1) {
            None => None,
            Some(c) => if c * d >= p256() || s[k - 1] * n == 0 { None } else { Some((c * d) / (s[k - 1] * n)) },
        }
    }
}
pub open spec fn conv(a: int, b: int) -> bool { b == a || b == a + 1 }
/// the live reserves in ascending order; None when only some are zero
pub open spec fn live(s: Seq<int>) -> Option<Seq<int>> {
    if noz(s) { Some(srt(s)) } else if allz(s) { Some(seq![]) } else { None }
}
pub open spec fn ystep(y: int, c: int, b: int, d: int) -> Option<int> {
    let num = y * y + c; let den = 2 * y + b - d;
    if num >= p256() || 2 * y + b >= p256() || den <= 0 || num / den + 2 >= p256() { None } else { Some(num / den + 2) }
}
pub open spec fn yiter(y: int, c: int, b: int, d: int, k: int) -> Option<int> decreases k {
    if k <= 0 { Some(y) } else {
        match ystep(y, c, b, d) { None => None, Some(z) => if conv(y, z) { Some(z) } else { yiter(z, c, b, d, k - 1) } }
    }
}
/// constant term of the quadratic for the missing reserve
pub open spec fn yc(d: int, ann: int, n: int, s: Seq<int>) -> Option<int> {
    match fold(d, n, s, s.len() as int) { None => None, Some(c) => if c * d >= p256() || ann == 0 { None } else { Some((c * d) / (ann * n)) } }
}
pub open spec fn spec_y(xp: Seq<int>, d: int, amp: int, iters: int) -> Option<int> {
    match live(xp) {
        None => None,
        Some(s) => {
            let n = s.len() as int + 1; let ann = amp * n;
            if ann > u128::MAX { None } else {
                match yc(d, ann, n, s) {
                    None => None,
                    Some(c) => match yiter(d, c, sum(s, s.len() as int) + d / ann, d, iters) { None => None, Some(y) => fit128(y) },
                }
            }
        },
    }
}
pub open spec fn dstep(d: int, ann: int, n: int, s: Seq<int>) -> Option<int> {
    match fold(d, n, s, s.len() as int) {
        None => None,
        Some(p) => {
            let t = sum(s, s.len() as int);
            let num = (ann * t + p * n) * d; let den = (ann - 1) * d + (n + 1) * p;
            if ann < 1 || ann * t >= p256() || p * n >= p256() || ann * t + p * n >= p256() || num >= p256()
                || (ann - 1) * d >= p256() || (n + 1) * p >= p256() || den >= p256() || den == 0 || num / den + 2 >= p256() { None }
            else { Some(num / den + 2) }
        },
    }
}
pub open spec fn diter(d: int, ann: int, n: int, s: Seq<int>, k: int) -> Option<int> decreases k {
    if k <= 0 { Some(d) } else {
        match dstep(d, ann, n, s) { None => None, Some(z) => if conv(d, z) { Some(z) } else { diter(z, ann, n, s, k - 1) } }
    }
}
pub open spec fn spec_d(xp: Seq<int>, amp: int, iters: int) -> Option<int> {
    match live(xp) {
        None => None,
        Some(s) => {
            let n = s.len() as int; let t = sum(s, n); let ann = amp * n;
            if ann > u128::MAX { None } else if t == 0 { Some(0int) } else {
                match diter(t, ann, n, s, iters) { None => None, Some(d) => fit128(d) }
            }
        },
    }
}

pub proof fn lem_pos(a: int, b: int) requires 0 <= a, 0 <= b ensures 0 <= a * b { assert(0 <= a * b) by (nonlinear_arith) requires 0 <= a, 0 <= b; }
pub broadcast proof fn lem_small(a: int, b: int)
    requires 0 <= a <= u128::MAX, 0 <= b <= u64::MAX + 1,
    ensures #![trigger a * b] 0 <= a * b < p256(), a * b <= u128::MAX * (u64::MAX + 1), a > 0 && b > 0 ==> a * b > 0,
{
    assert(0 <= a * b <= u128::MAX * (u64::MAX + 1)) by (nonlinear_arith) requires 0 <= a <= u128::MAX, 0 <= b <= u64::MAX + 1;
    assert(u128::MAX * (u64::MAX + 1) < p256()) by (compute);
    assert(a > 0 && b > 0 ==> a * b > 0) by (nonlinear_arith);
}
pub proof fn lem_fold_pos(d: int, n: int, s: Seq<int>, k: int)
    requires 0 <= k <= s.len(), 0 <= d, n > 0, bnd(s),
    ensures fold(d, n, s, k) is Some ==> fold(d, n, s, k)->0 >= 0,
    decreases k,
{
    if k > 0 {
        lem_fold_pos(d, n, s, k - 1);
        if fold(d, n, s, k - 1) is Some {
            lem_pos(fold(d, n, s, k - 1)->0, d); lem_pos(s[k - 1], n);
            if s[k - 1] * n > 0 { lem_div_pos(fold(d, n, s, k - 1)->0 * d, s[k - 1] * n); }
        }
    }
}
/// once the fold fails it stays failed
pub proof fn lem_fold_none(d: int, n: int, s: Seq<int>, k: int, m: int)
    requires 0 <= k <= m,
    ensures fold(d, n, s, k) is None ==> fold(d, n, s, m) is None,
    decreases m - k,
{ if k < m { lem_fold_none(d, n, s, k, m - 1); } }

pub proof fn lem_live_perm(a: Seq<int>, b: Seq<int>)
    requires a.to_multiset() =~= b.to_multiset(),
    ensures live(a) == live(b), noz(a) == noz(b), allz(a) == allz(b),
{
    lem_srt_perm(a, b);
    a.to_multiset_ensures(); b.to_multiset_ensures();
    lem_mem(a, b); lem_mem(b, a);
    assert(srt(a) =~= srt(b));
}
proof fn lem_mem(a: Seq<int>, b: Seq<int>)
    requires a.to_multiset() =~= b.to_multiset(),
    ensures noz(a) ==> noz(b), allz(a) ==> allz(b),
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|i: int| 0 <= i < b.len() implies a.contains(#[trigger] b[i]) by {
        assert(b.contains(b[i])); assert(b.to_multiset().count(b[i]) > 0);
    }
    assert forall|i: int| noz(a) && 0 <= i < b.len() implies #[trigger] b[i] != 0 by { assert(a.contains(b[i])); }
    assert forall|i: int| allz(a) && 0 <= i < b.len() implies #[trigger] b[i] == 0 by { assert(a.contains(b[i])); }
}
