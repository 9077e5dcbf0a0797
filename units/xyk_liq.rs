//@ root math/src
//@ include prelude.rs
//@ include mathlib.rs
pub type Balance = u128;
//@ include xyk_liq.inc.rs
/// depositing and immediately withdrawing never returns more than was deposited
proof fn c02_roundtrip(a: int, b: int, issuance: int, amount: int)
    requires a > 0, b > 0, issuance > 0, amount >= 0, spec_liq_in(a, b, amount) is Some, spec_shares(a, amount, issuance) is Some,
        spec_liq_out(a + amount, b + spec_liq_in(a, b, amount)->0, spec_shares(a, amount, issuance)->0, issuance + spec_shares(a, amount, issuance)->0) is Some,
    ensures ({ let v = spec_liq_in(a, b, amount)->0; let s = spec_shares(a, amount, issuance)->0;
        let o = spec_liq_out(a + amount, b + v, s, issuance + s)->0;
        o.0 <= amount && o.1 <= v }),
{
    let v = spec_liq_in(a, b, amount)->0; let s = spec_shares(a, amount, issuance)->0;
    c02_no_dilution_add(a, b, issuance, amount);
    lem_div(issuance * amount, a);
    assert(s >= 0) by (nonlinear_arith) requires issuance * amount < s * a + a, issuance > 0, amount >= 0, a > 0;
    lem_div(s * (a + amount), issuance + s); lem_div(s * (b + v), issuance + s);
    let o = spec_liq_out(a + amount, b + v, s, issuance + s)->0;
    assert(o.0 <= amount) by (nonlinear_arith) requires o.0 * (issuance + s) <= s * (a + amount), (a + amount) * issuance >= a * (issuance + s), issuance > 0, s >= 0;
    assert(o.1 <= v) by (nonlinear_arith) requires o.1 * (issuance + s) <= s * (b + v), (b + v) * issuance >= b * (issuance + s), issuance > 0, s >= 0;
}
}
fn main(){}
