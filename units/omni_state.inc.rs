pub open spec fn px(q: int, r: int) -> Option<int> { if r == 0 { None } else { fit128((q * d18()) / r) } }
impl AssetReserveState<u128> {
//@ fn math/src/omnipool/types.rs::AssetReserveState::price()
//@ meta selfty=AssetReserveState<u128>
//@ meta call=AssetReserveState::<u128>::price
//@ ensures fxo(r) == px(self.hub_reserve as int, self.reserve as int)
//@ pre broadcast use vxf;
//@ end
}
impl Position<u128> {
//@ fn math/src/omnipool/types.rs::Position::price()
//@ meta selfty=Position<u128>
//@ meta call=Position::<u128>::price
//@ ensures fxo(r) == px(self.price.0 as int, self.price.1 as int)
//@ pre broadcast use vxf;
//@ end
}
pub open spec fn spec_delta_imbalance(dq: int, l: int, neg: bool, q: int) -> Option<int> { if l == 0 { Some(0int) } else if !neg || q == 0 { None } else { fit128((dq * l) / q) } }
//@ fn math/src/omnipool/math.rs::calculate_delta_imbalance(delta_hub_reserve, imbalance, hub_reserve)
//@ ensures into_(r) == spec_delta_imbalance(delta_hub_reserve as int, imbalance.value as int, imbalance.negative, hub_reserve as int)
//@ pre broadcast use vxf; proof { lem_into(delta_hub_reserve as int, imbalance.value as int, hub_reserve as int); }
//@ end
/// what a liquidity change does: the asset, the imbalance, the position's amount and shares, the hub amount paid out
pub open spec fn lsc(r: Option<LiquidityStateChange<u128>>) -> Option<((int, int, int, int), int, int, int, int)> {
    match r { None => None, Some(c) => Some((ac(c.asset), sg(c.delta_imbalance), sg(c.delta_position_reserve), sg(c.delta_position_shares), c.lp_hub_amount as int)) }
}
