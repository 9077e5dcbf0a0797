# Generates the assumed contracts of sp-arithmetic's FixedU128 and per-things.
o = []
def ext(s): o.append(s)
def newtype(T, of, hi):
    ext(f"""#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct {T} {{ i: u128 }}
impl {T} {{ pub uninterp spec fn view(&self) -> int; }}
pub uninterp spec fn {of}(i: int) -> {T};
pub broadcast axiom fn ax_{of}_range(x: {T}) ensures #![trigger x.view()] 0 <= x@ <= {hi};
pub broadcast axiom fn ax_{of}_of(i: int) requires 0 <= i <= {hi} ensures #![trigger {of}(i)] {of}(i)@ == i;
pub broadcast axiom fn ax_{of}_ext(x: {T}) ensures #![trigger x.view()] {of}(x@) == x;""")
def cmps(T):
    ext(f"""impl PartialEqSpecImpl for {T} {{
    open spec fn obeys_eq_spec() -> bool {{ true }}
    open spec fn eq_spec(&self, o: &{T}) -> bool {{ self@ == o@ }}
}}
impl PartialEq for {T} {{
    #[verifier::external_body]
    fn eq(&self, o: &{T}) -> bool {{ unimplemented!() }} }}
impl Eq for {T} {{}}
impl PartialOrdSpecImpl for {T} {{
    open spec fn obeys_partial_cmp_spec() -> bool {{ true }}
    open spec fn partial_cmp_spec(&self, o: &{T}) -> Option<Ordering> {{ if self@ < o@ {{ Some(Ordering::Less) }} else if self@ == o@ {{ Some(Ordering::Equal) }} else {{ Some(Ordering::Greater) }} }}
}}
impl PartialOrd for {T} {{
    #[verifier::external_body]
    fn partial_cmp(&self, o: &{T}) -> Option<Ordering> {{ unimplemented!() }} }}
impl OrdSpecImpl for {T} {{
    open spec fn obeys_cmp_spec() -> bool {{ true }}
    open spec fn cmp_spec(&self, o: &{T}) -> Ordering {{ if self@ < o@ {{ Ordering::Less }} else if self@ == o@ {{ Ordering::Equal }} else {{ Ordering::Greater }} }}
}}
impl Ord for {T} {{
    #[verifier::external_body]
    fn cmp(&self, o: &{T}) -> Ordering {{ unimplemented!() }} }}
impl {T} {{
    #[verifier::external_body]
    pub fn max(self, o: {T}) -> (r: {T}) ensures r@ == imax(self@, o@) {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn min(self, o: {T}) -> (r: {T}) ensures r@ == imin(self@, o@) {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn clamp(self, lo: {T}, hi: {T}) -> (r: {T}) requires lo@ <= hi@, ensures r@ == imax(lo@, imin(self@, hi@)) {{ unimplemented!() }}
}}""")
def op(T, of, tr, req, val, rhs=None, out=None, outof=None):
    m = tr.lower(); rhs = rhs or T; out = out or T
    v = f"{outof or of}({val})" if out == T else f"({val}) as {out}"
    ext(f"""impl {tr}SpecImpl<{rhs}> for {T} {{
    open spec fn obeys_{m}_spec() -> bool {{ true }}
    open spec fn {m}_req(self, o: {rhs}) -> bool {{ {req} }}
    open spec fn {m}_spec(self, o: {rhs}) -> {out} {{ {v} }}
}}
impl {tr}<{rhs}> for {T} {{ type Output = {out};
    #[verifier::external_body]
    fn {m}(self, o: {rhs}) -> {out} {{ unimplemented!() }} }}""")
def frm(T, of, p, v):
    ext(f"""impl vstd::std_specs::convert::FromSpecImpl<{p}> for {T} {{
    open spec fn obeys_from_spec() -> bool {{ true }}
    open spec fn from_spec(v: {p}) -> Self {{ {of}({v}) }}
}}
impl From<{p}> for {T} {{
    #[verifier::external_body]
    fn from(v: {p}) -> (r: {T}) ensures r@ == {v} {{ unimplemented!() }} }}""")
M = "u128::MAX as int"
ext("""pub open spec fn d18() -> int { 1_000_000_000_000_000_000 }
/// round-half-down division
pub open spec fn ndiv(a: int, b: int) -> int { if 2 * (a % b) > b { a / b + 1 } else { a / b } }
pub open spec fn fit(v: int) -> Option<int> { if 0 <= v <= u128::MAX { Some(v) } else { None } }
pub open spec fn fxo(r: Option<FixedU128>) -> Option<int> { match r { Some(v) => Some(v@), None => None } }
pub open spec fn into_(r: Option<u128>) -> Option<int> { match r { Some(v) => Some(v as int), None => None } }
/// sp-arithmetic's rounding mode
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum PerRounding { Up, Down, NearestPrefUp, NearestPrefDown }
pub open spec fn rdiv(a: int, b: int, r: PerRounding) -> int {
    match r { PerRounding::Down => a / b, PerRounding::Up => cdiv(a, b), PerRounding::NearestPrefUp => if 2 * (a % b) >= b { a / b + 1 } else { a / b }, PerRounding::NearestPrefDown => ndiv(a, b) }
}
#[verifier::external_body]
pub fn multiply_by_rational_with_rounding(a: u128, b: u128, c: u128, r: PerRounding) -> (x: Option<u128>)
    ensures into_(x) == (if c == 0 { None } else { fit(rdiv(a as int * b as int, c as int, r)) })
{ unimplemented!() }""")
newtype("FixedU128", "fxu_of", M); cmps("FixedU128")
def perthing(T, of, acc, inner):
    newtype(T, of, acc); cmps(T)
    ext(f"""impl {T} {{
    #[verifier::external_body]
    pub fn from_parts(p: {inner}) -> (r: {T}) ensures r@ == imin(p as int, {acc}) {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn deconstruct(self) -> (r: {inner}) ensures r as int == self@ {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn from_percent(p: {inner}) -> (r: {T}) ensures r@ == imin(p as int, 100) * {acc} / 100 {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn zero() -> (r: {T}) ensures r@ == 0 {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn one() -> (r: {T}) ensures r@ == {acc} {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn is_one(&self) -> (r: bool) ensures r == (self@ == {acc}) {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn from_rational<N: VxInt>(p: N, q: N) -> (r: {T}) ensures r@ == (if q.vx_int() == 0 || p.vx_int() > q.vx_int() {{ {acc} }} else {{ (p.vx_int() * {acc}) / q.vx_int() }}) {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn mul_floor(self, b: u128) -> (r: u128) ensures r as int == (self@ * b) / {acc} {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn mul_ceil(self, b: u128) -> (r: u128) ensures r as int == cdiv(self@ * b, {acc}) {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn left_from_one(self) -> (r: {T}) ensures r@ == {acc} - self@ {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn saturating_add(self, o: {T}) -> (r: {T}) ensures r@ == imin(self@ + o@, {acc}) {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn saturating_sub(self, o: {T}) -> (r: {T}) ensures r@ == imax(self@ - o@, 0) {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn saturating_mul(self, o: {T}) -> (r: {T}) ensures r@ == (self@ * o@) / {acc} {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn checked_add(&self, o: &{T}) -> (r: Option<{T}>) ensures (self@ + o@ <= {acc}) ==> (r matches Some(v) && v@ == self@ + o@), self@ + o@ > {acc} ==> r.is_none() {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn checked_sub(&self, o: &{T}) -> (r: Option<{T}>) ensures (self@ >= o@) ==> (r matches Some(v) && v@ == self@ - o@), self@ < o@ ==> r.is_none() {{ unimplemented!() }}
}}""")
    op(T, of, "Add", f"self@ + o@ <= {inner}::MAX", f"imin(self@ + o@, {acc})")
    op(T, of, "Sub", "self@ >= o@", "self@ - o@")
    op(T, of, "Mul", "true", f"(self@ * o@) / {acc}")
    for p in ["u128", "u64", "u32"]:
        op(T, of, "Mul", "true", f"ndiv(self@ * o, {acc})", rhs=p, out=p)
    frm("FixedU128", "fxu_of", T, f"(v@ * d18()) / {acc}")
perthing("Permill", "pm_of", "1_000_000", "u32")
perthing("Perbill", "pb_of", "1_000_000_000", "u32")
perthing("Percent", "pc_of", "100", "u8")
perthing("Perquintill", "pq_of", "1_000_000_000_000_000_000", "u64")
F = "FixedU128"
def f(sig, ens, req=""):
    ext(f"    #[verifier::external_body]\n    pub fn {sig}\n        {('requires ' + req + ',') if req else ''} ensures {ens},\n    {{ unimplemented!() }}")
ext("impl FixedU128 {")
ext("    pub const DIV: u128 = 1_000_000_000_000_000_000;")
f(f"from_inner(i: u128) -> (r: {F})", "r@ == i as int")
f(f"into_inner(self) -> (r: u128)", "r as int == self@")
f(f"zero() -> (r: {F})", "r@ == 0")
f(f"one() -> (r: {F})", "r@ == d18()")
f(f"is_zero(&self) -> (r: bool)", "r == (self@ == 0)")
f(f"is_one(&self) -> (r: bool)", "r == (self@ == d18())")
f(f"min_value() -> (r: {F})", "r@ == 0")
f(f"max_value() -> (r: {F})", f"r@ == {M}")
f(f"from_u32(n: u32) -> (r: {F})", "r@ == n * d18()")
f(f"from_rational(a: u128, b: u128) -> (r: {F})", "r@ == ndiv(d18() * a, b as int)", f"b != 0, ndiv(d18() * a, b as int) <= {M}")
f(f"from_rational_with_rounding(a: u128, b: u128, m: PerRounding) -> (r: {F})", "r@ == rdiv(d18() * a, b as int, m)", f"b != 0, rdiv(d18() * a, b as int, m) <= {M}")
f(f"checked_from_rational<N: VxInt, D: VxInt>(n: N, d: D) -> (r: Option<{F}>)", "fxo(r) == (if d.vx_int() == 0 { None } else { fit((n.vx_int() * d18()) / d.vx_int()) })")
f(f"saturating_from_rational<N: VxInt, D: VxInt>(n: N, d: D) -> (r: {F})", f"r@ == imin((n.vx_int() * d18()) / d.vx_int(), {M})", "d.vx_int() != 0")
f(f"checked_from_integer<N: VxInt>(n: N) -> (r: Option<{F}>)", "fxo(r) == fit(n.vx_int() * d18())")
f(f"saturating_from_integer<N: VxInt>(n: N) -> (r: {F})", f"r@ == imin(n.vx_int() * d18(), {M})")
f(f"checked_mul_int(self, n: u128) -> (r: Option<u128>)", "into_(r) == fit((self@ * n) / d18())")
f(f"saturating_mul_int(self, n: u128) -> (r: u128)", f"r as int == imin((self@ * n) / d18(), {M})")
f(f"checked_div_int(self, n: u128) -> (r: Option<u128>)", "into_(r) == (if n == 0 { None } else { Some((self@ / n as int) / d18()) })")
f(f"saturating_div_int(self, n: u128) -> (r: u128)", "r as int == (self@ / n as int) / d18()", "n != 0")
f(f"reciprocal(self) -> (r: Option<{F}>)", "fxo(r) == (if self@ == 0 { None } else { fit((d18() * d18()) / self@) })")
for (n, v, c) in [("add", "self@ + o@", None), ("sub", "self@ - o@", None), ("mul", "(self@ * o@) / d18()", None), ("div", "(self@ * d18()) / o@", "o@ == 0")]:
    e = f"fit({v})" if not c else f"(if {c} {{ None }} else {{ fit({v}) }})"
    f(f"checked_{n}(&self, o: &{F}) -> (r: Option<{F}>)", f"fxo(r) == {e}")
f(f"saturating_add(self, o: {F}) -> (r: {F})", f"r@ == imin(self@ + o@, {M})")
f(f"saturating_sub(self, o: {F}) -> (r: {F})", "r@ == imax(self@ - o@, 0)")
f(f"saturating_mul(self, o: {F}) -> (r: {F})", f"r@ == imin((self@ * o@) / d18(), {M})")
f(f"saturating_pow(self, e: usize) -> (r: {F})", "r@ == fx_satpow(self@, e as int)")
f(f"trunc(self) -> (r: {F})", "r@ == (self@ / d18()) * d18()")
f(f"into_clamped_permill(self) -> (r: Permill)", "r@ == fx_clamp(self@, 1_000_000)")
# inherent const arithmetic (method-call syntax): rounds to nearest, panics on overflow
f(f"div(self, o: {F}) -> (r: {F})", "r@ == ndiv(self@ * d18(), o@)", f"o@ != 0, ndiv(self@ * d18(), o@) <= {M}")
f(f"mul(self, o: {F}) -> (r: {F})", "r@ == ndiv(self@ * o@, d18())", f"ndiv(self@ * o@, d18()) <= {M}")
ext("}")
ext("""pub open spec fn fx_clamp(v: int, acc: int) -> int { if v > d18() { acc } else { (v * acc) / d18() } }
/// square-and-multiply with truncation at every step, as sp-arithmetic computes it
pub open spec fn fx_satpow(b: int, e: int) -> int { fx_powgo(d18(), b, e) }
pub open spec fn fx_powgo(acc: int, b: int, e: int) -> int decreases e {
    if e <= 0 { acc } else { fx_powgo(if e % 2 == 1 { imin((acc * b) / d18(), u128::MAX as int) } else { acc }, imin((b * b) / d18(), u128::MAX as int), e / 2) }
}""")
op(F, "fxu_of", "Add", f"self@ + o@ <= {M}", "self@ + o@")
op(F, "fxu_of", "Sub", "self@ >= o@", "self@ - o@")
op(F, "fxu_of", "Mul", f"(self@ * o@) / d18() <= {M}", "(self@ * o@) / d18()")
op(F, "fxu_of", "Div", f"o@ != 0 && (self@ * d18()) / o@ <= {M}", "(self@ * d18()) / o@")
frm(F, "fxu_of", "u128", f"imin(v * d18(), {M})")
for p in ["u128", "u64", "u32"]:
    ext(f"""impl vstd::std_specs::convert::FromSpecImpl<({p}, {p})> for {F} {{
    open spec fn obeys_from_spec() -> bool {{ true }}
    open spec fn from_spec(v: ({p}, {p})) -> Self {{ fxu_of(imin((v.0 * d18()) / (v.1 as int), {M})) }}
}}
impl From<({p}, {p})> for {F} {{
    #[verifier::external_body]
    fn from(v: ({p}, {p})) -> (r: {F}) {{ unimplemented!() }} }}""")
ext("pub broadcast group vxf { vx, " + ", ".join(f"ax_{x}_{y}" for x in ["fxu_of", "pm_of", "pb_of", "pc_of", "pq_of"] for y in ["range", "of", "ext"]) + " }")
print("\n".join(o))
