out=["""pub trait VxInt: Sized {
    spec fn vx_int(&self) -> int;
    fn zero() -> (r: Self) ensures r.vx_int() == 0;
    fn one() -> (r: Self) ensures r.vx_int() == 1;
    fn is_zero(&self) -> (r: bool) ensures r == (self.vx_int() == 0);
    fn is_one(&self) -> (r: bool) ensures r == (self.vx_int() == 1);
}
"""]
for p in ["u128","u64","u32","u16","u8","usize","i128","i32"]:
    out.append(f"""impl VxInt for {p} {{
    open spec fn vx_int(&self) -> int {{ *self as int }}
    fn zero() -> (r: {p}) ensures r == 0 {{ 0 }}
    fn one() -> (r: {p}) ensures r == 1 {{ 1 }}
    fn is_zero(&self) -> (r: bool) ensures r == (*self == 0) {{ *self == 0 }}
    fn is_one(&self) -> (r: bool) ensures r == (*self == 1) {{ *self == 1 }}
}}""")
print("\n".join(out))
