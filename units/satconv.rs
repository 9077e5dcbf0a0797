// SaturatedConversion of sp-arithmetic: unsigned integers clamp to the maximum of the target
pub trait VxSat: VxInt { spec fn vx_max() -> int; }
impl VxSat for u32 { open spec fn vx_max() -> int { u32::MAX as int } }
impl VxSat for u64 { open spec fn vx_max() -> int { u64::MAX as int } }
impl VxSat for u128 { open spec fn vx_max() -> int { u128::MAX as int } }
pub trait VxSatInto: VxSat {
    fn saturated_into<T: VxSat>(self) -> (r: T) ensures r.vx_int() == imin(self.vx_int(), T::vx_max());
}
impl VxSatInto for u32 {
    #[verifier::external_body]
    fn saturated_into<T: VxSat>(self) -> (r: T) { unimplemented!() } }
impl VxSatInto for u64 {
    #[verifier::external_body]
    fn saturated_into<T: VxSat>(self) -> (r: T) { unimplemented!() } }
impl VxSatInto for u128 {
    #[verifier::external_body]
    fn saturated_into<T: VxSat>(self) -> (r: T) { unimplemented!() } }
