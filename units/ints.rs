pub trait VxInt: Sized {
    spec fn vx_int(&self) -> int;
    fn zero() -> (r: Self) ensures r.vx_int() == 0;
    fn one() -> (r: Self) ensures r.vx_int() == 1;
    fn is_zero(&self) -> (r: bool) ensures r == (self.vx_int() == 0);
    fn is_one(&self) -> (r: bool) ensures r == (self.vx_int() == 1);
}

impl VxInt for u128 {
    open spec fn vx_int(&self) -> int { *self as int }
    fn zero() -> (r: u128) ensures r == 0 { 0 }
    fn one() -> (r: u128) ensures r == 1 { 1 }
    fn is_zero(&self) -> (r: bool) ensures r == (*self == 0) { *self == 0 }
    fn is_one(&self) -> (r: bool) ensures r == (*self == 1) { *self == 1 }
}
impl VxInt for u64 {
    open spec fn vx_int(&self) -> int { *self as int }
    fn zero() -> (r: u64) ensures r == 0 { 0 }
    fn one() -> (r: u64) ensures r == 1 { 1 }
    fn is_zero(&self) -> (r: bool) ensures r == (*self == 0) { *self == 0 }
    fn is_one(&self) -> (r: bool) ensures r == (*self == 1) { *self == 1 }
}
impl VxInt for u32 {
    open spec fn vx_int(&self) -> int { *self as int }
    fn zero() -> (r: u32) ensures r == 0 { 0 }
    fn one() -> (r: u32) ensures r == 1 { 1 }
    fn is_zero(&self) -> (r: bool) ensures r == (*self == 0) { *self == 0 }
    fn is_one(&self) -> (r: bool) ensures r == (*self == 1) { *self == 1 }
}
impl VxInt for u16 {
    open spec fn vx_int(&self) -> int { *self as int }
    fn zero() -> (r: u16) ensures r == 0 { 0 }
    fn one() -> (r: u16) ensures r == 1 { 1 }
    fn is_zero(&self) -> (r: bool) ensures r == (*self == 0) { *self == 0 }
    fn is_one(&self) -> (r: bool) ensures r == (*self == 1) { *self == 1 }
}
impl VxInt for u8 {
    open spec fn vx_int(&self) -> int { *self as int }
    fn zero() -> (r: u8) ensures r == 0 { 0 }
    fn one() -> (r: u8) ensures r == 1 { 1 }
    fn is_zero(&self) -> (r: bool) ensures r == (*self == 0) { *self == 0 }
    fn is_one(&self) -> (r: bool) ensures r == (*self == 1) { *self == 1 }
}
impl VxInt for usize {
    open spec fn vx_int(&self) -> int { *self as int }
    fn zero() -> (r: usize) ensures r == 0 { 0 }
    fn one() -> (r: usize) ensures r == 1 { 1 }
    fn is_zero(&self) -> (r: bool) ensures r == (*self == 0) { *self == 0 }
    fn is_one(&self) -> (r: bool) ensures r == (*self == 1) { *self == 1 }
}
impl VxInt for i128 {
    open spec fn vx_int(&self) -> int { *self as int }
    fn zero() -> (r: i128) ensures r == 0 { 0 }
    fn one() -> (r: i128) ensures r == 1 { 1 }
    fn is_zero(&self) -> (r: bool) ensures r == (*self == 0) { *self == 0 }
    fn is_one(&self) -> (r: bool) ensures r == (*self == 1) { *self == 1 }
}
impl VxInt for i32 {
    open spec fn vx_int(&self) -> int { *self as int }
    fn zero() -> (r: i32) ensures r == 0 { 0 }
    fn one() -> (r: i32) ensures r == 1 { 1 }
    fn is_zero(&self) -> (r: bool) ensures r == (*self == 0) { *self == 0 }
    fn is_one(&self) -> (r: bool) ensures r == (*self == 1) { *self == 1 }
}
