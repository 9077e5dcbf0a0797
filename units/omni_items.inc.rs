//@ item math/src/omnipool/types.rs::AssetReserveState derive Default
//@ item math/src/omnipool/types.rs::BalanceUpdate derive Clone, Copy, PartialEq, Eq, Structural
use BalanceUpdate::{Decrease, Increase};
impl<Balance: Default> Default for BalanceUpdate<Balance> {
//@ fn math/src/omnipool/types.rs::<Default for BalanceUpdate>::default()
//@ ensures r is Increase, call_ensures(<Balance as Default>::default, (), r->Increase_0)
//@ meta skip=1
//@ end
}
//@ item math/src/omnipool/types.rs::AssetStateChange derive Default
//@ item math/src/omnipool/types.rs::TradeFee derive Default
//@ item math/src/omnipool/types.rs::TradeStateChange derive Default
//@ item math/src/omnipool/types.rs::HubTradeStateChange derive Default
//@ item math/src/omnipool/types.rs::LiquidityStateChange derive Default
//@ item math/src/omnipool/types.rs::Position derive none
//@ item math/src/omnipool/types.rs::I129 derive Clone, Copy
pub type Balance = u128;
/// signed change
pub open spec fn sg(b: BalanceUpdate<u128>) -> int { match b { BalanceUpdate::Increase(x) => x as int, BalanceUpdate::Decrease(x) => -(x as int) } }
pub open spec fn ac(c: AssetStateChange<u128>) -> (int, int, int, int) { (sg(c.delta_reserve), sg(c.delta_hub_reserve), sg(c.delta_shares), sg(c.delta_protocol_shares)) }
/// what a trade changes: both assets, the imbalance, the hub amount bought back, the asset and the protocol fee
pub open spec fn tsc(r: Option<TradeStateChange<u128>>) -> Option<((int, int, int, int), (int, int, int, int), int, int, int, int)> {
    match r { None => None, Some(c) => Some((ac(c.asset_in), ac(c.asset_out), sg(c.delta_imbalance), c.hdx_hub_amount as int, c.fee.asset_fee as int, c.fee.protocol_fee as int)) }
}
pub open spec fn htsc(r: Option<HubTradeStateChange<u128>>) -> Option<((int, int, int, int), int, int, int)> {
    match r { None => None, Some(c) => Some((ac(c.asset), sg(c.delta_imbalance), c.fee.asset_fee as int, c.fee.protocol_fee as int)) }
}
