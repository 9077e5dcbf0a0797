//@ item math/src/lib.rs::MathError
use MathError::*;
pub open spec fn ok128(r: Result<u128, MathError>) -> Option<int> { match r { Ok(v) => Some(v as int), Err(_) => None } }
