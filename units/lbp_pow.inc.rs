//@ subst transcendental.rs|S => U32F96
//@ subst transcendental.rs|D => U32F96
//@ subst transcendental.rs|T => U32F96
pub assume_specification<T> [<T as From<T>>::from](t: T) -> (r: T) ensures r == t;
pub proof fn lem_p96() ensures pow2s(96) == one96(), pow2s(32) == 0x1_0000_0000, one96() * 0x1_0000_0000 == p128()
{ assert(pow2s(96) == one96()) by (compute); assert(pow2s(32) == 0x1_0000_0000) by (compute); assert(one96() * 0x1_0000_0000 == p128()) by (compute); }
/// halve, rounding up
pub open spec fn rs96(x: int) -> int { x / 2 + x % 2 }
//@ fn math/src/transcendental.rs::rs(operand)
//@ meta inst=::<fixed::types::U32F96>
//@ generics
//@ ensures r@ == rs96(operand@)
//@ pre broadcast use vxq; proof { lem_p96(); assert(pow2s(1) == 2) by (compute); }
//@ end
/// halve until below two: what is left and how many times
pub open spec fn lgw(x: int, n: int) -> (int, int) decreases x { if x >= 2 * one96() { lgw(rs96(x), n + 1) } else { (x, n) } }
/// k more binary digits of the logarithm of x (1 <= x < 2) below res
pub open spec fn lgb(k: int, x: int, res: int) -> int decreases k
{ if k <= 0 { res } else { let y = mul96(x, x); if y >= 2 * one96() { lgb(k - 1, rs96(y), 2 * res + 1) } else { lgb(k - 1, y, 2 * res) } } }
/// base two logarithm, 96 binary digits, of a number not below one
pub open spec fn log2i(x: int) -> int { let w = lgw(x, 0); if w.0 == one96() { w.1 * one96() } else { lgb(96, w.0, w.1) } }
pub proof fn lem_sq(x: int) requires one96() <= x < 2 * one96() ensures one96() <= mul96(x, x) <= 4 * one96() - 4
{
    let o = one96();
    assert(o * o <= x * x <= (2 * o - 1) * (2 * o - 1)) by (nonlinear_arith) requires o <= x <= 2 * o - 1, o > 0;
    assert((2 * o - 1) * (2 * o - 1) == (4 * o - 4) * o + 1) by (nonlinear_arith);
    lem_div_mono(o * o, x * x, o); lem_div_mono(x * x, (4 * o - 4) * o + 1, o); lem_div_is(o * o, o, o); lem_div_is((4 * o - 4) * o + 1, o, 4 * o - 4);
}
//@ fn math/src/transcendental.rs::log2_inner(operand)
//@ meta inst=::<fixed::types::U32F96, fixed::types::U32F96>
//@ generics
//@ requires operand@ >= one96()
//@ ensures r@ == log2i(operand@), r@ < 33 * one96()
//@ pre broadcast use vxq; proof { lem_p96(); assert(pow2s(128) == p128()) by (compute); }
//@ loop 0
//@ invariant two@ == 2 * one96(), lsb == 1, x@ >= one96(), result <= 32, x@ <= pow2s(128 - result), lgw(operand@, 0) == lgw(x@, result as int)
//@ decreases x@
//@ loop-start 0
//@ broadcast use vxq; proof { lem_p96(); lem_pow2(128 - result - 1); if result > 31 { assert(pow2s(96) == one96()); } }
//@ loop 1
//@ invariant two@ == 2 * one96(), lsb == 1, $k <= 96, one96() <= x@ < 2 * one96(), log2i(operand@) == lgb(96 - $k, x@, result as int), result < 33 * pow2s($k as int), pow2s($k as int) <= one96()
//@ loop-start 1
//@ broadcast use vxq; proof { lem_p96(); lem_sq(x@); lem_pow2($k as int); lem_pow2_mono($k as int + 1, 96); let q = result; assert(q < 0x40000000000000000000000000000000 ==> (q << 1u128) == q * 2 && (((q << 1u128) | 1u128) == q * 2 + 1)) by (bit_vector); }
//@ end
/// base two logarithm: size and whether it is negative
pub open spec fn lg2(x: int) -> Option<(int, bool)> {
    if x <= 0 { None } else if x < one96() { if (one96() * one96()) / x > u128::MAX { None } else { Some((log2i((one96() * one96()) / x), true)) } } else { Some((log2i(x), false)) }
}
pub open spec fn lgo(r: Result<(U32F96, bool), ()>) -> Option<(int, bool)> { match r { Ok(v) => Some((v.0@, v.1)), Err(_) => None } }
//@ fn math/src/transcendental.rs::log2(operand)
//@ meta inst=::<fixed::types::U32F96, fixed::types::U32F96>
//@ generics
//@ ensures lgo(r) == lg2(operand@), r matches Ok(v) ==> v.0@ < 33 * one96()
//@ pre broadcast use vxq; proof { let x = operand@; let o = one96(); if 0 < x < o { lem_div_pos(o * o, x); assert(o * x <= o * o) by (nonlinear_arith) requires x < o, o > 0; lem_div_mono(o * x, o * o, x); lem_div_is(o * x, x, o); } }
//@ end
/// natural logarithm
pub open spec fn ln_(x: int) -> Option<(int, bool)> { match lg2(x) { None => None, Some((l, n)) => Some(((l * one96()) / log2_e(), n)) } }
//@ fn math/src/transcendental.rs::ln(operand)
//@ meta inst=::<fixed::types::U32F96, fixed::types::U32F96>
//@ generics
//@ ensures lgo(r) == ln_(operand@), r matches Ok(v) ==> v.0@ < 33 * one96()
//@ pre broadcast use vxq; proof { let m = 33 * one96() * one96(); assert(m / log2_e() < 33 * one96()) by (compute); assert forall|l: int| 0 <= l < 33 * one96() implies 0 <= #[trigger] (l * one96()) / log2_e() < 33 * one96() by { assert(0 <= l * one96() <= m) by (nonlinear_arith) requires 0 <= l < 33 * one96(), m == 33 * one96() * one96(), one96() > 0; lem_div_mono(l * one96(), m, log2_e()); lem_div_pos(l * one96(), log2_e()); } }
//@ end
/// the exponential series from term i on, given the previous term and the sum so far
pub open spec fn et(i: int, x: int, t: int, acc: int) -> Option<int> decreases 288 - i {
    if i >= 288 { Some(acc) } else {
        let t1 = mul96(t, x); let t2 = (t1 * one96()) / (i * one96());
        if t1 > u128::MAX || t2 > u128::MAX || acc + t2 > u128::MAX { None } else { et(i + 1, x, t2, acc + t2) }
    }
}
pub open spec fn expi(x: int, neg: bool) -> Option<int> {
    if x == 0 { Some(one96()) } else if x == one96() && !neg { Some(exp_1()) } else if x + one96() > u128::MAX { None } else {
        match et(2, x, x, x + one96()) { None => None, Some(s) => if !neg { Some(s) } else if s == 0 { None } else { fit128((one96() * one96()) / s) } }
    }
}
pub open spec fn fqr(r: Result<U32F96, ()>) -> Option<int> { match r { Ok(v) => Some(v@), Err(_) => None } }
//@ fn math/src/transcendental.rs::exp(operand, neg)
//@ meta inst=::<fixed::types::U32F96, fixed::types::U32F96>
//@ generics
//@ ensures fqr(r) == expi(operand@, neg)
//@ pre broadcast use vxq; proof { lem_p96(); }
//@ loop 0
//@ invariant max_iter == 288, 2 <= $k <= 288, fqr($r) == Some($a@), et(2, operand@, operand@, operand@ + one96()) == et($k as int, operand@, term@, $a@)
//@ loop-start 0
//@ broadcast use vxq; proof { assert(term@ * operand@ >= 0) by (nonlinear_arith) requires term@ >= 0, operand@ >= 0; lem_div_pos(term@ * operand@, one96()); lem_div_pos(mul96(term@, operand@) * one96(), $k * one96()); }
//@ end
/// x to the e
pub open spec fn powf(x: int, e: int) -> Option<int> {
    if x == 0 { Some(0int) } else if e == 0 { Some(one96()) } else if e == one96() { Some(x) } else {
        match ln_(x) { None => None, Some((l, n)) => if mul96(l, e) > u128::MAX { None } else { expi(mul96(l, e), n) } }
    }
}
//@ fn math/src/transcendental.rs::pow(operand, exponent)
//@ meta inst=::<fixed::types::U32F96, fixed::types::U32F96>
//@ generics
//@ ensures fqr(r) == powf(operand@, exponent@)
//@ pre broadcast use vxq;
//@ end
