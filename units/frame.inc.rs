// ---- what the pallets use of FRAME: errors are opaque, origins carry an uninterpreted signer
pub enum ArithmeticError { Overflow, Underflow, DivisionByZero }
pub enum DispatchError { A(ArithmeticError), E }
impl From<ArithmeticError> for DispatchError { #[verifier::external_body] fn from(e: ArithmeticError) -> (r: Self) { DispatchError::A(e) } }
pub type DispatchResult = Result<(), DispatchError>;
pub struct Weight { w: u64 }
impl Weight { pub fn zero() -> Weight { Weight { w: 0 } } }
pub fn a_weight() -> Weight { Weight { w: 1 } }
#[verifier::external_body]
pub struct Origin { o: u8 }
/// 32 bytes
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct AccountId { pub hi: u128, pub lo: u128 }
/// the account behind a signed origin, None for root; an origin that is neither is refused
pub uninterp spec fn signer(o: Origin) -> Option<Option<AccountId>>;
#[verifier::external_body]
pub fn ensure_signed_or_root(o: Origin) -> (r: Result<Option<AccountId>, DispatchError>) ensures okv(r) == signer(o) { unimplemented!() }
pub open spec fn okv<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
#[verifier::external_body]
pub fn ensure_signed(o: Origin) -> (r: Result<AccountId, DispatchError>) ensures okv(r) == (match signer(o) { Some(Some(a)) => Some(a), _ => None::<AccountId> }) { unimplemented!() }
