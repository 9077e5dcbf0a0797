# Generates the assumed contracts of the fixed-width integers of the primitive-types crate.
def gen(T, of, P, prims, wider=None):
    o=[]
    def m(sig, body_ens, attr=""):
        o.append(f"    #[verifier::external_body]\n    pub fn {sig}\n        ensures {body_ens},\n    {{ unimplemented!() }}")
    o.append(f"impl {T} {{")
    def opt(name, cond, val):
        m(f"{name}(self, o: {T}) -> (r: Option<{T}>)", f"({cond}) ==> (r matches Some(v) && v@ == {val}), !({cond}) ==> r.is_none()")
    opt("checked_add", f"self@ + o@ < {P}", "self@ + o@")
    opt("checked_sub", "self@ >= o@", "self@ - o@")
    opt("checked_mul", f"self@ * o@ < {P}", "self@ * o@")
    opt("checked_div", "o@ != 0", "self@ / o@")
    opt("checked_rem", "o@ != 0", "self@ % o@")
    m(f"saturating_add(self, o: {T}) -> (r: {T})", f"r@ == imin(self@ + o@, {P} - 1)")
    m(f"saturating_sub(self, o: {T}) -> (r: {T})", f"r@ == imax(self@ - o@, 0)")
    m(f"saturating_mul(self, o: {T}) -> (r: {T})", f"r@ == imin(self@ * o@, {P} - 1)")
    m(f"is_zero(&self) -> (r: bool)", "r == (self@ == 0)")
    m(f"zero() -> (r: {T})", "r@ == 0")
    m(f"one() -> (r: {T})", "r@ == 1")
    m(f"max_value() -> (r: {T})", f"r@ == {P} - 1")
    m(f"abs_diff(self, o: {T}) -> (r: {T})", "r@ == iabs(self@ - o@)")
    m(f"min(self, o: {T}) -> (r: {T})", "r@ == imin(self@, o@)")
    m(f"max(self, o: {T}) -> (r: {T})", "r@ == imax(self@, o@)")
    o.append(f"    #[verifier::external_body]\n    pub fn div_mod(self, o: {T}) -> (r: ({T}, {T}))\n        requires o@ != 0,\n        ensures r.0@ == self@ / o@, r.1@ == self@ % o@,\n    {{ unimplemented!() }}")
    m(f"bits(&self) -> (r: usize)", "0 <= r <= 512, r == nbits(self@)")
    m(f"integer_sqrt(&self) -> (r: {T})", "r@ * r@ <= self@, (r@ + 1) * (r@ + 1) > self@, r@ >= 0")
    m(f"low_u128(&self) -> (r: u128)", "r as int == self@ % p128()")
    o.append(f"    #[verifier::external_body]\n    pub fn as_u128(&self) -> (r: u128)\n        requires self@ < p128(),\n        ensures r as int == self@,\n    {{ unimplemented!() }}")
    if wider:
        m(f"full_mul(self, o: {T}) -> (r: {wider})", "r@ == self@ * o@")
    o.append("}")
    for (tr, meth, req, val) in [("Add","add",f"self@ + o@ < {P}","self@ + o@"),("Sub","sub","self@ >= o@","self@ - o@"),
                           ("Mul","mul",f"self@ * o@ < {P}","self@ * o@"),("Div","div","o@ != 0","self@ / o@"),("Rem","rem","o@ != 0","self@ % o@")]:
        o.append(f"""impl {tr}SpecImpl<{T}> for {T} {{
    open spec fn obeys_{meth}_spec() -> bool {{ true }}
    open spec fn {meth}_req(self, o: {T}) -> bool {{ {req} }}
    open spec fn {meth}_spec(self, o: {T}) -> {T} {{ {of}({val}) }}
}}
impl {tr}<{T}> for {T} {{ type Output = {T};
    #[verifier::external_body]
    fn {meth}(self, o: {T}) -> {T} {{ unimplemented!() }} }}""")
    for (tr, meth, val) in [("Shr","shr","self@ / pow2s(o as int)")]:
        for st in ["usize","u32","u8"]:
            o.append(f"""impl {tr}SpecImpl<{st}> for {T} {{
    open spec fn obeys_{meth}_spec() -> bool {{ true }}
    open spec fn {meth}_req(self, o: {st}) -> bool {{ true }}
    open spec fn {meth}_spec(self, o: {st}) -> {T} {{ {of}({val}) }}
}}
impl {tr}<{st}> for {T} {{ type Output = {T};
    #[verifier::external_body]
    fn {meth}(self, o: {st}) -> {T} {{ unimplemented!() }} }}""")
    for st in ["usize","u32"]:
        o.append(f"""impl ShlSpecImpl<{st}> for {T} {{
    open spec fn obeys_shl_spec() -> bool {{ true }}
    open spec fn shl_req(self, o: {st}) -> bool {{ true }}
    open spec fn shl_spec(self, o: {st}) -> {T} {{ {of}((self@ * pow2s(o as int)) % {P}) }}
}}
impl Shl<{st}> for {T} {{ type Output = {T};
    #[verifier::external_body]
    fn shl(self, o: {st}) -> {T} {{ unimplemented!() }} }}""")
    o.append(f"""impl PartialEqSpecImpl for {T} {{
    open spec fn obeys_eq_spec() -> bool {{ true }}
    open spec fn eq_spec(&self, o: &{T}) -> bool {{ self@ == o@ }}
}}
impl PartialEq for {T} {{
    #[verifier::external_body]
    fn eq(&self, o: &{T}) -> bool {{ unimplemented!() }} }}
impl Eq for {T} {{}}
impl PartialOrdSpecImpl for {T} {{
    open spec fn obeys_partial_cmp_spec() -> bool {{ true }}
    open spec fn partial_cmp_spec(&self, o: &{T}) -> Option<Ordering> {{ if self@ < o@ {{ Some(Ordering::Less) }} else if self@ == o@ {{ Some(Ordering::Equal) }} else {{ Some(Ordering::Greater) }} }}
}}
impl PartialOrd for {T} {{
    #[verifier::external_body]
    fn partial_cmp(&self, o: &{T}) -> Option<Ordering> {{ unimplemented!() }} }}
impl OrdSpecImpl for {T} {{
    open spec fn obeys_cmp_spec() -> bool {{ true }}
    open spec fn cmp_spec(&self, o: &{T}) -> Ordering {{ if self@ < o@ {{ Ordering::Less }} else if self@ == o@ {{ Ordering::Equal }} else {{ Ordering::Greater }} }}
}}
impl Ord for {T} {{
    #[verifier::external_body]
    fn cmp(&self, o: &{T}) -> Ordering {{ unimplemented!() }} }}""")
    for p in prims:
        v = "v@" if p.startswith("U") else "v as int"
        o.append(f"""impl vstd::std_specs::convert::FromSpecImpl<{p}> for {T} {{
    open spec fn obeys_from_spec() -> bool {{ true }}
    open spec fn from_spec(v: {p}) -> Self {{ {of}({v}) }}
}}
impl From<{p}> for {T} {{
    #[verifier::external_body]
    fn from(v: {p}) -> (r: {T}) ensures r@ == {v} {{ unimplemented!() }} }}""")
    for p in ["u128","u64","u32","u16","u8","usize"]+(["U256"] if T=="U512" else []):
        mx = f"{p}::MAX as int" if p!="U256" else "p256() - 1"
        vv = "x as int" if p!="U256" else "x@"
        o.append(f"""impl TryFrom<{T}> for {p} {{ type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: {T}) -> (r: Result<{p}, ConvErr>)
        ensures v@ <= {mx} ==> (r matches Ok(x) && {vv} == v@), v@ > {mx} ==> r.is_err()
    {{ unimplemented!() }} }}""")
    return "\n".join(o)
out = """#[derive(Clone, Copy)]
pub struct ConvErr;
pub open spec fn pow2s(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * pow2s(n - 1) } }
pub open spec fn nbits(n: int) -> int decreases n { if n <= 0 { 0 } else { 1 + nbits(n / 2) } }
"""
out += gen("U256","u256_of","p256()",["u128","u64","u32","u16","u8","usize"],"U512")
out += "\n"+gen("U512","u512_of","p512()",["u128","u64","u32","u16","u8","usize","U256"])
out += "\n"+gen("U128","uu128_of","p128()",["u128","u64","u32","u16","u8","usize"])
import sys
print(out)
