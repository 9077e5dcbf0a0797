"""The properties, the units that decide them and the metadata MANIFEST.json / properties.jsonl are generated from."""
PROPS = {}
NA = {}
ALL = []

def P(pid, title, statement, units, files, mech, quant, why, note='', assumptions=(), over=('inputs',), state=(), theorems=(), observe=()):
    PROPS[pid] = dict(units=units, note=note, assumptions=list(assumptions), theorems=list(theorems))
    ALL.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=list(over), text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))
def N(pid, title, statement, reason, files, mech, quant, why, over=('histories',)):
    NA[pid] = reason
    ALL.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=list(over), text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[], observe_at=[], hook_needed=None)))

TB = 'Contracts of primitive-types U256/U512 and sp-arithmetic (FixedU128, per-things) are assumed (and conformance-tested against the replay stand-ins in the thorough tier).'

P('C01', 'XYK trades never decrease the reserve product',
  'For any reserves and amount, a constant-product sell pays exactly floor(y*dx/(x+dx)) and a buy charges exactly floor(x*dy/(y-dy))+1 (zero for a zero amount), failing exactly when the pool cannot pay or the result does not fit. '
  'Consequently the product of reserves never decreases, a non-zero buy is never free, the out reserve is never drained, bigger trades are never better priced, and buying back or selling back never yields a profit. '
  'The quoted spot price is the exact floored reserve ratio; with a fee it is the ratio to 18 decimals reduced by the fee, failing (never panicking) when the ratio does not fit.',
  ['xyk_trade'], ['math/src/xyk/math.rs', 'math/src/lib.rs'],
  [('out given in', 'math/src/xyk/math.rs calculate_out_given_in'), ('in given out', 'math/src/xyk/math.rs calculate_in_given_out'), ('spot prices', 'math/src/xyk/math.rs calculate_spot_price*')],
  'all u128 reserves and amounts, all fee fractions', 'unit tests sample about a dozen reserve/amount triples; the invariant quantifies over all 2^384 of them, including overflow and exhaustion corners',
  'Exact functional contracts on the real functions, proved for all inputs; product, round-trip and monotonicity are lemmas over the contracts.', [TB], observe=['return values of the trade functions'])
P('C02', 'XYK liquidity changes never dilute existing shares',
  'Adding liquidity charges the second asset at exactly floor(amount*b/a)+1 (zero only when nothing is added or the other reserve is empty) and mints exactly floor(issuance*amount/reserve) shares; removing pays exactly floor(shares*reserve/total) of each asset. '
  'Hence the value of every remaining share never falls on either operation, withdrawing all shares returns all reserves, and depositing then withdrawing never returns more than was deposited.',
  ['xyk_liq'], ['math/src/xyk/math.rs'],
  [('liquidity in/out', 'math/src/xyk/math.rs calculate_liquidity_in, calculate_liquidity_out'), ('shares', 'math/src/xyk/math.rs calculate_shares')],
  'all u128 reserves, issuances and amounts', 'a few sampled values are tested; dilution is a rounding-direction fact over all of them',
  'Exact functional contracts plus no-dilution lemmas.', [TB], observe=['minted shares, charged and paid amounts'])
P('C03', 'The pool trade fee never exceeds its proportional share',
  'For any amount and fee fraction the pool trade fee is the numerator times the number of whole denominators contained in the amount (the amount itself when numerator and denominator are equal and non-zero, nothing when either is zero), failing exactly when that does not fit. '
  'Hence a fee fraction of at most one never fails and never takes more than the amount, the fee never exceeds the exact proportional fee and is short of it by less than the numerator, and it never falls when the amount grows.',
  ['fee'], ['math/src/fee.rs'], [('fee computation', 'math/src/fee.rs calculate_pool_trade_fee')],
  'all u128 amounts and all u32 numerators and denominators', 'tests use round amounts and five fee fractions',
  'Exact functional contract plus bound, totality and monotonicity lemmas.', [TB], observe=['fee returned for an amount'])
P('C04', 'LBP spot prices are the exact weighted reserve ratio',
  'For any reserves, weights and amount the bootstrapping-pool spot price is exactly floor(amount*out*in_weight/(in*out_weight)), zero when nothing is asked or nothing is left, failing exactly on an empty in-reserve, a zero out-weight, a 256-bit overflow of the weighted product or a result that does not fit. '
  'The 18-decimal price is floor(out*in_weight*10^18/(in*out_weight)) and fails when either weighted reserve exceeds 128 bits; a fee lowers it by exactly the fee fraction, rounded down, only when the fee is taken in the bought asset.',
  ['lbp_price'], ['math/src/lbp/lbp.rs'], [('spot price', 'math/src/lbp/lbp.rs calculate_spot_price'), ('spot price with fee', 'math/src/lbp/lbp.rs calculate_spot_price_with_fee')],
  'all u128 reserves and amounts, u32 weights, fee fractions and assets', 'seven sampled prices are tested, none near the overflow or rounding boundaries',
  'Exact functional contracts.', [TB], observe=['quoted prices'])
P('C05', 'LBP weights move linearly and stay between their end points',
  'At any block inside a sale the interpolated weight is exactly floor((initial*(end-at)+final*(at-start))/(end-start)); outside the interval, or for an empty one, the computation fails. '
  'Hence the weight equals the initial one at the start and the final one at the end, never leaves the range between them, never moves backwards, and complementary weights keep their total to within one unit.',
  ['lbp_weights'], ['math/src/lbp/lbp.rs'], [('interpolation', 'math/src/lbp/lbp.rs calculate_linear_weights')],
  'all u32 start, end and current blocks and all u32 weights', 'tests check nine points of a handful of schedules and a proptest of bounded ranges',
  'Exact functional contract (block number instantiated at u32, the type the runtime uses) plus end-point, range, monotonicity and total lemmas.', [TB], observe=['weights during a sale'])

P('C10', 'Stableswap solves the invariant for a reserve exactly, never below it',
  'Given the invariant D, the amplification and the other reserves, the solver returns the value the integer Newton iteration reaches, fails when some but not all reserves are empty or any 256-bit step overflows, and does not depend on the order of the reserves. '
  'The result is never below the positive root of the invariant equation it solves, and once settled is at most two units above it. The reserve solved for after a trade is the one obtained by moving exactly the traded amount in (or out) at the invariant of the untouched pool.',
  ['ss_y', 'ss_given'], ['math/src/stableswap/math.rs'], [('reserve solver', 'math/src/stableswap/math.rs calculate_y_internal, has_converged, abs_diff, calculate_ann'), ('reserve after a trade', 'math/src/stableswap/math.rs calculate_y_given_in, calculate_y_given_out')],
  'all reserve vectors of any length, all invariants and amplifications, any iteration limit', 'proptests sample small pools with a fixed iteration count; correctness of the iteration, overflow and order independence concern every vector',
  'Loop invariants on the real iteration against the integer Newton specification; root bounds and permutation independence are lemmas over it.', [TB, 'slice sort is assumed to sort'], observe=['solved reserve'])
P('C11', 'The stableswap invariant is never underestimated and ignores asset order',
  'For any reserves and amplification the invariant D returned is the one the integer Newton iteration reaches from the sum of the reserves, zero for an empty pool, failing when some but not all reserves are empty or any 256-bit step overflows. '
  'It does not depend on the order of the reserves, and once settled it is never below the exact solution of the invariant equation A*n*S + D = A*n*D + D^(n+1)/(n^n*prod).',
  ['ss_d'], ['math/src/stableswap/math.rs'], [('invariant', 'math/src/stableswap/math.rs calculate_d_internal')],
  'all reserve vectors of any length and all amplifications, any iteration limit', 'tests check a few pools against recorded numbers; the bound is over every pool',
  'Loop invariants on the real iteration; the lower bound is proved over the exact (rational) invariant equation by a convexity argument.', [TB, 'slice sort is assumed to sort'], observe=['invariant D'])
P('C12', 'Stableswap trades leave the out reserve above the invariant',
  'A stableswap sell pays the out reserve less the solved reserve, scaled down to the asset decimals and less one raw unit; a buy charges the solved reserve less the in reserve, scaled up plus one raw unit; both fail on equal or unknown assets or an unsolvable pool. The fee is a floored part of a sell and a ceiled surcharge of a buy, and both parts add up. '
  'Hence (for assets of at most 18 decimals) the pool always keeps at least the solved reserve plus one raw unit, a buy is never free, and the fee never exceeds the amount.',
  ['ss_trade'], ['math/src/stableswap/math.rs', 'math/src/stableswap/types.rs'],
  [('sell', 'math/src/stableswap/math.rs calculate_out_given_in, calculate_out_given_in_with_fee'), ('buy', 'math/src/stableswap/math.rs calculate_in_given_out, calculate_in_given_out_with_fee'), ('scaling', 'math/src/stableswap/math.rs normalize_value, normalize_reserves')],
  'all pools of any size, any decimals, all amounts, amplifications and fees, any iteration limits', 'tests sample pools of a few assets with round numbers; the direction of every rounding step matters on all inputs',
  'Exact functional contracts on the real functions, with the solver contracts; the reserve bounds are lemmas.', [TB, 'slice sort is assumed to sort'], observe=['amount paid or charged and fee'])
P('C13', 'Stableswap shares are minted rounded down and burned rounded up',
  'Adding liquidity mints the shares proportional to the growth of the fee-adjusted invariant rounded down; withdrawing an exact amount burns the proportional loss rounded down plus one; the one-sided withdrawal and the one-sided purchase of shares follow the two-step solve at the proportionally moved invariant with fee-reduced reserves. Every call fails on an unknown asset, an empty issuance, more shares than exist or fewer than two assets. '
  'Hence the invariant behind one share never falls on a mint or an exact withdrawal (as far as the invariant is as computed), the liquidity fee only lowers what is credited, and a one-sided payout with its fee never exceeds the reserve.',
  ['ss_shares', 'ss_withdraw'], ['math/src/stableswap/math.rs'],
  [('mint', 'math/src/stableswap/math.rs calculate_shares'), ('burn for amount', 'math/src/stableswap/math.rs calculate_shares_for_amount'), ('one-sided withdrawal', 'math/src/stableswap/math.rs calculate_withdraw_one_asset'), ('one-sided purchase', 'math/src/stableswap/math.rs calculate_add_one_asset')],
  'all pools of any size, any decimals, all amounts, issuances, amplifications and fees, any iteration limits', 'tests check a few pools; dilution is a rounding-direction fact over all of them',
  'Exact functional contracts with loop invariants over the real fee loops; the share-value bounds are lemmas.', [TB, 'slice sort is assumed to sort'], observe=['shares minted or burned, amounts paid or charged'])
P('C06', 'Shortening a fraction to 128 bits rounds in the asked direction',
  'Both parts of a fraction are shifted right by the same number of bits, just enough for the longer one to fit 128 bits, then one is added to the denominator (rounding down), the numerator (rounding up) or nothing (nearest), only when a shift took place; a part that is non-zero never becomes zero. '
  'Hence a fraction that fits is unchanged, rounding down never raises the fraction unless the numerator vanished in the shift, and rounding up never lowers it unless the denominator vanished or the numerator saturated.',
  ['rational'], ['math/src/support/rational.rs'], [('shortening', 'math/src/support/rational.rs round_to_rational, round_u256_to_rational, round_u512_to_rational')],
  'all 256- and 512-bit pairs and the three rounding modes', 'tests compare a few hand-computed pairs and proptests of the same helper; direction is a fact about every bit length',
  'Exact functional contracts on the real functions over the bit length of the parts; direction and exactness are lemmas.', [TB], observe=['shortened fraction'])
P('C14', 'An amplification ramp stays between its end points and never moves backwards',
  'Before the ramp the amplification is the initial one, from its end on the final one, and in between it moves by floor(min(|final-initial|*(at-start), 2^128-1)/(end-start)) from the initial one towards the final one; an empty ramp keeps the initial one. '
  'Hence it never leaves the range between the two, never turns back, and never overflows.',
  ['ss_amp'], ['math/src/stableswap/math.rs'], [('ramp', 'math/src/stableswap/math.rs calculate_amplification')],
  'all u128 amplifications and blocks', 'tests check a dozen block numbers of one ramp',
  'Exact functional contract plus end-point, range and monotonicity lemmas.', [TB], observe=['amplification at a block'])
P('C15', 'Stableswap quotes are the exact ratios of the invariant equation',
  'The price of an asset pair is x_i(A n x_j + c) / (x_j(A n x_i + c)) with c the folded product term of the invariant, shortened downwards to 128 bits and with the fee taken off the denominator; the price of a share is the derivative of the invariant in that reserve over the issuance, scaled to the asset decimals; the price of a share against an asset is what the smallest trade would mint or charge. '
  'Every quote fails on fewer than two assets, an unknown asset, the share against itself and any 256-bit overflow. The share prices of a pool are exactly those of its assets at one invariant, computed with the 64-step limit the trades use.',
  ['ss_price'], ['math/src/stableswap/math.rs', 'math/src/support/rational.rs'],
  [('pair price', 'math/src/stableswap/math.rs calculate_spot_price_between_two_stable_assets'), ('share price', 'math/src/stableswap/math.rs calculate_share_price, calculate_share_prices'), ('quote', 'math/src/stableswap/math.rs calculate_spot_price')],
  'all pools of any size, any decimals, all issuances, amplifications and fees', 'tests compare a few pools with recorded prices',
  'Exact functional contracts with loop invariants over the real fold and search loops.', [TB, 'slice sort is assumed to sort', 'cloning a copyable value is the identity'], observe=['quoted prices'])

OM = 'math/src/omnipool/math.rs'; OT = 'math/src/omnipool/types.rs'
P('C20', 'Omnipool sells conserve hub asset and never shrink a reserve product',
  'Selling amount a takes floor(a*q_in/(r_in+a)) hub out of the in asset, keeps floor(protocol_fee*hub) of it, moves the rest into the out asset and pays floor(hub_in*r_out/(q_out+hub_in)) less the asset fee, rounded down; it fails only on an empty pool (both terms of a denominator zero). '
  'The protocol fee first repays the imbalance, the rest buys back HDX. Hence every unit of hub leaving the in asset is accounted for, fees and payouts stay within the reserves, reserve*hub_reserve of neither asset falls, no live reserve is drained, and shares do not move.',
  ['omni_sell'], [OM, OT], [('sell', OM + ' calculate_sell_state_changes, amount_without_fee')],
  'all u128 asset states, amounts and imbalances and all fees', 'tests execute two recorded trades; proptests sample balanced pools far from exhaustion',
  'Exact functional contract on the real function; conservation, product and drain lemmas over it.', [TB], observe=['state changes and fees of a sell'])
P('C21', 'Omnipool buys conserve hub asset, round against the trader and grow products',
  'Buying amount a costs hub floor(q_out*a/(r_out*(1-fee)-a))+1, plus the protocol fee on top, and charges floor(r_in*hub/(q_in-hub))+1 of the in asset; it fails when the out reserve after the fee does not exceed the amount or the in asset lacks the hub. '
  'Hence hub leaving the in asset is exactly hub entering the out asset plus the protocol fee, which first repays the imbalance and then buys back HDX; both reserve products strictly grow; a purchase is never free; the reported asset fee never falls short of its share.',
  ['omni_buy'], [OM, OT], [('buy', OM + ' calculate_buy_state_changes, calculate_fee_amount_for_buy, amount_without_fee')],
  'all u128 asset states, amounts and imbalances and all fees', 'tests execute two recorded trades; the rounding and exhaustion corners are not sampled',
  'Exact functional contract on the real function; conservation, product and fee lemmas over it.', [TB], observe=['state changes and fees of a buy'])
P('C22', 'Hub-asset trades adjust the imbalance by no less than the hub they add',
  'Selling or spending hub asset moves the whole hub amount into the bought asset, pays the product-preserving amount less the asset fee (or charges the hub that buying costs), charges no protocol fee, and lowers the imbalance by floor(dq*(Q-L)/(Q+dq))+1+dq; it fails when the imbalance exceeds the hub reserve or nothing is in the pool. '
  'Hence (Q-L)*Q never grows, the imbalance always moves by more than the hub added, and the product of the bought asset never falls.',
  ['omni_hub'], [OM, OT], [('hub sell and buy', OM + ' calculate_sell_hub_state_changes, calculate_buy_for_hub_asset_state_changes'), ('imbalance', OM + ' calculate_imbalance_in_hub_swap')],
  'all u128 asset states, amounts, imbalances and hub reserves and all asset fees', 'tests execute a recorded trade and a table of five imbalances',
  'Exact functional contracts; imbalance and product lemmas over them.', [TB], observe=['state changes of a hub trade'])
P('C23', 'Adding omnipool liquidity never favours the depositor',
  'A deposit of a at price p = hub/reserve (18 decimals, rounded down) adds floor(p*a) hub, mints floor(shares*a/reserve) shares to the depositor and none to the protocol, and moves the imbalance by floor(hub*L/Q) away from zero; it fails on an empty reserve, a positive imbalance that is not zero, or a result that does not fit. '
  'Hence shares minted are worth at most the deposit, reserve per share never falls, the price in hub never rises and the imbalance never grows faster than the hub reserve.',
  ['omni_add'], [OM, OT], [('deposit', OM + ' calculate_add_liquidity_state_changes, calculate_delta_imbalance'), ('price', OT + ' AssetReserveState::price')],
  'all u128 asset states, amounts, imbalances and hub reserves', 'tests execute two recorded deposits',
  'Exact functional contracts; share-value, price and imbalance lemmas over them.', [TB], observe=['state changes of a deposit'])
P('C24', 'Removing omnipool liquidity never pays more than the shares are worth',
  'Removing sr shares compares the current with the position price: if it fell, part of the shares, rounded up, goes to the protocol; if it rose, hub is paid out; the rest of the shares is burned for floor(reserve*burned/shares) of the asset and its part of the hub, all reduced by the withdrawal fee, rounded down. '
  'Hence burned plus protocol shares are exactly the shares removed, the position loses exactly those and at most its proportional amount, nobody left is diluted, at an unchanged price without fee the payout is exactly proportional, and a full fee pays nothing. '
  'The withdrawal fee is the relative distance of spot from oracle price, at least the configured minimum (which it is without an oracle price), at most 100%, never less when the price is further away, and never panics.',
  ['omni_remove'], [OM, OT], [('withdrawal', OM + ' calculate_remove_liquidity_state_changes, calculate_withdrawal_fee, calculate_delta_imbalance'), ('prices', OT + ' AssetReserveState::price, Position::price')],
  'all u128 asset states, positions, imbalances and prices and all fees', 'tests execute four recorded withdrawals and eight fees at moderate prices',
  'Exact functional contracts; fairness, plain-withdrawal and fee-range lemmas over them.', [TB], observe=['state changes of a withdrawal, withdrawal fee'])
P('C25', 'Signed balance updates are applied exactly or not at all',
  'Applying a change to an amount gives exactly amount plus change and fails exactly when that is negative or exceeds 128 bits; an asset state takes all four of its changes or none. Merging two changes is exact signed addition, failing exactly when its size does not fit. '
  'Hence merging is commutative and equals applying one after the other, and a change followed by its opposite restores the state.',
  ['omni_types'], [OT], [('update', OT + ' BalanceUpdate, AssetReserveState::delta_update')],
  'all u128 states and changes of both signs', 'tests check small values and one overflow',
  'Exact functional contracts on the operator and trait implementations (instantiated at the 128-bit balance the runtime uses); algebraic lemmas over them.', [TB], observe=['asset state after a change'])
P('C26', 'Omnipool caps, value and quotes are exact and caps are never overshot',
  'The pool value is floor(hub*stable_reserve/stable_hub); a deposit passes the weight cap exactly when its floored 18-decimal weight is at most the cap; the room below the value cap is floor((floor(cap*stable_hub/stable_reserve)-total_hub)*reserve/hub), zero above it; the room below the weight cap is the floored unused part of the allowed hub times the reserve. '
  'Spot prices are floored products of floored 18-decimal ratios, each fee multiplying the price by what it leaves. Hence depositing at most the room keeps value and weight within the cap up to the last decimal, and a fee never raises a quote.',
  ['omni_caps'], [OM], [('caps', OM + ' verify_asset_cap, calculate_cap_difference, calculate_tvl_cap_difference, calculate_tvl'), ('quotes', OM + ' calculate_spot_price, calculate_lrna_spot_price')],
  'all u128 asset states, caps and amounts and all fees', 'tests check a few states near one cap',
  'Exact functional contracts; cap and fee lemmas over them.', [TB], observe=['cap decisions, room below caps, quotes'])
P('C34', 'Dynamic fees follow the volume and never leave their bounds',
  'For minimum at most maximum the recalculated fee always lies between them. It is the previous fee, decayed once per skipped block (not below the minimum), moved by the amplified nearest-rounded ratio of net volume to liquidity less the decay, saturating at every step, truncated to a millionth and clamped; it never panics. '
  'Asset fees rise with net outflow, protocol fees with net inflow: more volume in that direction never lowers the fee; without net volume a fee never rises.',
  ['dyn_fees'], ['math/src/dynamic_fees'], [('fee recalculation', 'math/src/dynamic_fees/math.rs recalculate_asset_fee, recalculate_protocol_fee, recalculate_fee'), ('net volume', 'math/src/dynamic_fees/types.rs OracleEntry::net_volume')],
  'all u128 volumes, liquidity, block gaps, decay and amplification, all fees and ordered bounds', 'ten sampled recalculations are tested; bounds, direction and totality quantify over all inputs',
  'Exact functional contracts (fee type instantiated at the millionth-based one the runtime uses); bound, direction and idle-decay lemmas.', [TB], observe=['recalculated fees'])
P('C35', 'The rate limiter defers the excess and releases one limit per duration',
  'The deferral of an accumulated amount is exactly floor(duration*(accumulated-limit)/limit) blocks (duration and limit counted as at least one, saturating), so nothing is deferred up to the limit, twice the limit is deferred by exactly one duration and more accumulated is never deferred less. '
  'After some blocks the accumulated amount is what was there less floor(limit*blocks/duration), never below zero, plus what arrives: decay never adds, one duration releases exactly one limit, and waiting out the deferral brings the amount down to the limit, not below it.',
  ['rate_limit'], ['math/src/rate_limiter'], [('deferral', 'math/src/rate_limiter/math.rs calculate_deferred_duration'), ('accumulation and decay', 'math/src/rate_limiter/math.rs calculate_new_accumulated_amount, decay_accumulated_amount')],
  'all u32 durations and block gaps, all u128 limits and amounts', 'a handful of round values are tested; saturation and rounding corners and the release rate are not',
  'Exact functional contracts; anchor, monotonicity, decay and wait lemmas.', [TB], observe=['deferral and accumulated amounts'])
P('C36', 'Staking rewards, points and slashing are exact and never overpay',
  'A distribution raises the reward index by exactly floor(pending*10^18/stake) and a position earns floor((index-its index)*stake/10^18): positions of any number and size that saw the old index together earn at most what was distributed. '
  'Points are the floored weighted time and action points less the slashed ones and never fall with time or actions; slashing takes floor(increase*points/(stake*weight)), at least the minimum, never more than there is. '
  'The payout curve is the floored (ax)^4/(b+(ax)^4), below one, never falling as points grow; a percentage of at most one never exceeds the amount; totals saturate. Failures are exactly the overflows, empty stakes and negative results.',
  ['staking'], ['math/src/staking'], [('staking math', 'math/src/staking/math.rs (all functions)')],
  'all u128 amounts, stakes, points and periods, all weights and fixed-point parameters, position sets of any size', 'tests sample a few values per function; solvency over all positions and monotonicity are not testable by samples',
  'Exact functional contracts; solvency (by induction over the positions), slashing, points, curve and percentage lemmas.', [TB], observe=['indices, rewards, points, slashed points, curve values'])
P('C37', 'Liquidity mining rewards are exact, capped and never overpay',
  'Every index, reward, share and multiplier is the exact floored formula, failing exactly on overflow, division by zero or a negative result. What a deposit is paid now, was paid before and forfeits add up to what it earned; the loyalty multiplier stays between the initial percentage and one and never falls with age. '
  'An index raised by a reward pays any set of deposits within its shares at most that reward; a yield farm claims exactly the reward of its weighted shares and credits its deposits at most that; a global farm never distributes more than its maximum per period.',
  ['liq_mining'], ['math/src/liquidity_mining'], [('liquidity mining math', 'math/src/liquidity_mining/liquidity_mining.rs (all functions)')],
  'all u128 amounts and shares, all fixed-point indices and multipliers, all u32 periods, deposit sets of any size', 'tests sample tables of values; conservation and solvency over all deposits are not',
  'Exact functional contracts (period type instantiated at the 32-bit block number of the runtime); conservation, solvency (by induction), multiplier and cap lemmas.', [TB], observe=['rewards, indices, shares, multipliers'])
P('C31', 'Fractions scale amounts without ever exceeding them',
  'A fraction of two integers n <= d is the nearest multiple of 2^-127 (ties down; one for 0/0) and never above one. A fraction at most one of a balance or fixed-point number is its exact product rounded to the nearest unit, ties down: never more than the whole, everything at one, nothing at zero, off by at most half a unit. '
  'Converting between fractions and 18-decimal numbers rounds to nearest and never leaves the unit interval; a number converted to a fraction and back is unchanged.',
  ['fraction'], ['math/src/fraction.rs'], [('fractions', 'math/src/fraction.rs frac, to_fixed, from_fixed, multiply_by_balance, multiply_by_fixed')],
  'all fractions up to one, all u128 balances and fixed-point numbers', 'tests check a quarter, a half and a hundredth; rounding direction and the bounds concern every value',
  'Exact functional contracts; bound and round-trip lemmas.', [TB, 'The contract of the 127-bit fixed point type (crate fixed) is assumed.'], observe=['scaled amounts, converted fractions'])
P('C39', 'Integer powers of fractions are accurate to their last digits',
  'For every fraction x at most one and every 32-bit n the high-precision power is never above one and within max(n,128) units of 2^-127 of the true x^n: the square-and-multiply path never exceeds the true power and loses less than n units, the binomial series near one is cut only where the remainder vanishes and otherwise falls back. '
  'It is exactly zero at x = 0, one at n = 0 and x at n = 1. The plain power multiplies n-1 times rounding down each time and fails exactly when a product overflows.',
  ['trans'], ['math/src/transcendental.rs'], [('powers', 'math/src/transcendental.rs saturating_powi_high_precision, saturating_pow, powi_near_one, powi')],
  'all fractions up to one (the functional contract: all 128-bit patterns), all 32-bit exponents', 'tests sample a few bases and exponents with loose tolerances; the error bound is over the reals and all exponents',
  'Exact functional contracts with loop invariants (generic number type instantiated at the fraction type used by the oracles); accuracy by induction over the reals (error propagation of floors, alternating partial sums of the binomial series).', [TB, 'The contract of the 127-bit fixed point type (crate fixed) is assumed.'], observe=['powers'])
P('C30', 'Oracle prices compare exactly and convert without loss',
  'Two prices with non-zero denominators compare exactly as the fractions they denote: the order is total, transitive, equal exactly when the cross products are, and turned around by inverting both; a zero denominator counts as larger than every other. '
  'Building a price never leaves a zero denominator (except where documented as unchecked) and otherwise keeps both numbers; inverting swaps them, leaving zero as it is; one, zero and the tests for them agree with the fractions.',
  ['ratio'], ['math/src/ratio.rs'], [('comparison', 'math/src/ratio.rs Ord, PartialOrd'), ('construction and inversion', 'math/src/ratio.rs Ratio::new, new_unchecked, inverted, one, zero, is_one, is_zero, From')],
  'all pairs and triples of 128-bit fractions', 'order axioms and overflow-free comparison concern all triples; tests do not compare at all',
  'Exact functional contracts on the real trait implementations; order and inversion lemmas.', ['The arbitrary precision integers of sp-arithmetic are assumed to multiply and compare exactly.'], observe=['comparisons, constructed prices'])
P('C32', 'Oracle balance averages stay between the old and the new value',
  'For any weight at most one a balance average is the previous value moved towards the incoming one by the exact weighted difference rounded to the nearest unit (ties stay): it lies between the two, moves further the larger the weight, equals the previous value at weight zero or when nothing changed and the incoming one at weight one. Volumes and liquidity average each component that way; stale volumes are averaged with zero. '
  'The weight after n skipped steps is 1-(1-s)^n of the high-precision power, always within [0,1], zero after none, s after one; a period gives a weight above zero and at most one. No step over- or underflows.',
  ['ema_bal'], ['math/src/ema/math.rs'], [('averages', 'math/src/ema/math.rs balance_weighted_average, volume_weighted_average, liquidity_weighted_average'), ('iterated averages', 'math/src/ema/math.rs exp_smoothing, iterated_balance_ema, iterated_volume_ema, iterated_liquidity_ema'), ('period', 'math/src/ema/math.rs smoothing_from_period')],
  'all u128 balances, all weights up to one, all 32-bit step counts, all periods', 'tests and proptests sample; freedom from overflow in the bare arithmetic and the bounds concern every triple',
  'Exact functional contracts through the power and fraction functions; range, accuracy, monotonicity, anchor lemmas.', [TB, 'The contract of the 127-bit fixed point type (crate fixed) is assumed.'], observe=['averaged balances, volumes and liquidity, weights'])
P('C33', 'Oracle price averages are exact up to one final rounding',
  'For a weight at most one the price average is exactly previous + weight*(incoming - previous), computed as a fraction without any intermediate rounding or saturation, and rounded once to a 128-bit numerator and denominator. The exact average lies between the two prices; equal prices and weight zero keep the previous price. '
  'The rounding moves each side by at most one unit (|x*d - n*y| <= n + d), never yields a zero denominator or turns a positive price into zero, keeps what already fits, rounds down on a rise (never past the incoming price unless its numerator vanishes) and up on a fall. '
  'Integrating a new entry and updating a stale one average price, volume and liquidity with the same weight, stale ones with the iterated weight and zero volume.',
  ['ema_price'], ['math/src/ema/math.rs'], [('price average', 'math/src/ema/math.rs price_weighted_average, iterated_price_ema'), ('fraction arithmetic', 'math/src/ema/math.rs saturating_sub, multiply, round, round_to_rational, rounding_add, rounding_sub'), ('entries', 'math/src/ema/math.rs calculate_new_by_integrating_incoming, update_outdated_to_current')],
  'all pairs of prices with 128-bit numerators and denominators, all weights up to one, all step counts', 'tests compare with high precision arithmetic on sampled prices within a tolerance; exactness, absence of saturation at 512 bits and rounding direction concern all of them',
  'Exact functional contracts; no-saturation, between, rounding lemmas.', [TB, 'The contract of the 127-bit fixed point type (crate fixed) is assumed.'], observe=['averaged prices and oracle entries'])
SP = 'math/src/omnipool_subpools/math.rs'
P('C40', 'Moving assets into a subpool rescales shares without creating any',
  'Creating a subpool from two omnipool assets gives it exactly the sum of their hub reserves, as many shares, and floor(hub*protocol/shares) protocol shares for each; an asset joining an existing subpool brings all of its hub asset and mints floor(hub*pool_shares/pool_hub) shares and floor(hub*issuance/pool_hub) share tokens, all of them or the move fails. '
  'A position converts to floor(shares*hub/old_shares) shares and floor(amount*tokens/old_shares) tokens, with its price rescaled by the asset price. Hence converted positions together never exceed the shares minted for their asset, a position holding all shares gets all of it, protocol shares never exceed the minted shares, and neither shares nor share tokens of the others are diluted.',
  ['subpools'], [SP, 'math/src/support/u128.rs', 'math/src/support/rational.rs'],
  [('position conversion', SP + ' convert_position'), ('subpool creation', SP + ' create_subpool_initial_state, recalculate_protocol_shares'), ('migration', SP + ' calculate_asset_migration_details'), ('widening arithmetic', 'math/src/support/u128.rs')],
  'all u128 reserves, shares, protocol shares, issuances, positions and prices', 'one sampled conversion is tested; conservation over all positions of an asset and rounding directions concern all of them',
  'Exact functional contracts (including the widening helper traits) plus conservation lemmas.', [TB], observe=['new pool state, migration details and converted positions'])
P('C38', 'LBP trades round against the trader and never empty the pool',
  'For any reserves, weights and amount a bootstrapping-pool sell pays out - ceil(out*(in/(in+amount))^(w_in/w_out)) and a buy charges ceil(in*((out/(out-amount))^(w_out/w_in) - 1)) + 1, the reserve ratio rounded up, the weight ratio down, on 96 binary digits; the power is e^(exponent*ln), from a 96 digit binary logarithm and 286 terms of the exponential series, failing (never panicking) when a step does not fit. '
  'Hence a sell never pays more than the reserve nor all of it, a buy is never free and can not take the whole reserve, a base up to one never gives a power above one (nor one from one up below it), and with equal weights a trade is never better than the constant product.',
  ['lbp_trade'], ['math/src/lbp/lbp.rs', 'math/src/transcendental.rs'],
  [('trades', 'math/src/lbp/lbp.rs calculate_out_given_in, calculate_in_given_out, div_to_fixed, mul_to_balance'), ('power', 'math/src/transcendental.rs pow, exp, ln, log2, log2_inner, rs')],
  'all u128 reserves and amounts and all u32 weights', 'tests sample a few dozen trades of moderate size; overflow of the logarithm, rounding direction and draining concern every pool and amount',
  'Exact functional contracts (loop invariants over the logarithm and the series) plus range and rounding lemmas.', [TB, 'The contract of the 96-bit fixed point type (crate fixed) is assumed.', 'How closely the truncated logarithm and series approximate the real power is not proved.'], observe=['amounts paid and charged'])
FB = 'FRAME storage maps are finite maps (clear(u32::MAX) empties them), origins, weights and errors are opaque; generic balances and asset ids are the runtime\'s u128 and u32. Pallet state is an explicit parameter. Extrinsics are transactional: nothing is said about the state after an error.'
P('C41', 'The circuit breaker caps the net flow and liquidity change per block',
  'Within a block the net volume of an asset, in or out, accumulated by trades never exceeds its limit, and the liquidity added (removed) by accounts that are not exempt never exceeds its limit; a trade or liquidity change that would exceed it fails. '
  'The limit is fixed when the asset is first touched in the block, at the configured share (numerator/denominator, rounded down) of the reserve at that point; the hub asset is never limited; every trade adds exactly its amounts. Volumes and limits are dropped at the end of the block. '
  'Limits are set only by the technical origin, never for the hub asset, and only with parts between 1 and 10000. Root and whitelisted accounts bypass the liquidity limits, and nothing is recorded for them.',
  ['circuit'], ['pallets/circuit-breaker/src/lib.rs'],
  [('trade volume', 'pallets/circuit-breaker/src/lib.rs ensure_pool_state_change_limit, initialize_trade_limit, ensure_and_update_trade_volume_limit, TradeVolumeLimit'), ('liquidity', 'pallets/circuit-breaker/src/lib.rs ensure_add_liquidity_limit, ensure_remove_liquidity_limit, calculate_and_store_liquidity_limits, LiquidityLimit'), ('limit', 'pallets/circuit-breaker/src/lib.rs calculate_limit, validate_limit'), ('end of block', 'pallets/circuit-breaker/src/lib.rs on_finalize'), ('administration', 'pallets/circuit-breaker/src/lib.rs set_trade_volume_limit, set_add_liquidity_limit, set_remove_liquidity_limit')],
  'all sequences of trades and liquidity changes of any amounts on any assets in a block, all configurations', 'pallet tests play a few trades against two or three assets; the cap must hold for every sequence and every amount',
  'Exact contracts of the real functions over an explicit storage state; the cap is an invariant over them, preserved by every call (so over every history) and established by the end-of-block reset.', [FB], over=('inputs', 'histories'), observe=['accepted or refused trades', 'stored volumes and limits'])
CB = 'The currency pallet is assumed by contract: an operation that succeeds changes exactly the balances it names by exactly its amount; whether it succeeds is left open.'
P('C42', 'OTC orders are filled at their price and stay backed by a reserve',
  'Placing an order stores it under a fresh id and reserves exactly the amount it sells. Filling part of it with x pays the owner exactly x, and the taker floor(amount_out*x/amount_in) out of that reserve, never more than the price gives, and reduces both sides of the order by exactly that; what remains is not below the minimum on either side. Filling all moves exactly both amounts and removes the order. '
  'Cancelling, by its owner only, frees exactly what is left and removes it. No other balance and no other order changes. So whatever the history, what an account has reserved covers everything its open orders still owe, in every asset.',
  ['otc'], ['pallets/otc/src/lib.rs'],
  [('placing', 'pallets/otc/src/lib.rs place_order, ensure_min_order_amount'), ('filling', 'pallets/otc/src/lib.rs partial_fill_order, fill_order, execute_order'), ('cancelling', 'pallets/otc/src/lib.rs cancel_order')],
  'all orders, amounts, accounts and assets, all sequences of placing, filling and cancelling', 'pallet tests fill and cancel a few orders; exact payment, price direction and backing concern every amount and history',
  'Exact contracts of the real dispatchables over explicit storage and balances; backing as an invariant (sum over all open orders) preserved by every step; price lemma.', [FB, CB], over=('inputs', 'histories'), observe=['orders, free and reserved balances'])
P('C43', 'Bonds are backed one to one and redeemable only after maturity',
  'Issuing bonds for an amount takes exactly that amount from the issuer: the protocol fee, rounded up (and never more than the amount), goes to the fee receiver, the rest is kept by the pallet, and exactly as many bonds as are kept are minted. Bonds are one asset per underlying asset and maturity, registered once, not before now, and only for allowed asset types. '
  'Redeeming, only at or after maturity, burns an amount of bonds and pays exactly as much of the underlying asset from the pallet. No other balance changes. So whatever the history, issuing and redeeming keep the bonds outstanding covered one to one by what the pallet keeps.',
  ['bonds'], ['pallets/bonds/src/lib.rs'],
  [('issuing', 'pallets/bonds/src/lib.rs issue'), ('redeeming', 'pallets/bonds/src/lib.rs redeem')],
  'all amounts, assets, maturities, fees and accounts, all sequences of issuing and redeeming', 'pallet tests issue and redeem sampled amounts at one fee; backing must hold for all amounts and histories',
  'Exact contracts of the real dispatchables over explicit storage and balances; one-to-one backing preserved by every step.', [FB, CB, 'The asset registry hands out a fresh id for a new asset.'], over=('inputs', 'histories'), observe=['bond and underlying balances'])
ST = 'pallets/staking/src/lib.rs'
P('C44', 'The staking pot covers all that stakers are owed',
  'Rewards that reached the pot are shared among the positions by stake, rounded down; a new or increased stake earns nothing from before, and an operation on one position changes no other. Staking locks exactly the staked amount, and only what is neither vesting nor staked already. Increasing a stake pays the rewards due and locks them with the stake; claiming pays them and frees them; unstaking pays them, frees everything and removes the position and its token. '
  'Each pays exactly the payable part of the rewards beyond what was paid already; what is forfeited goes back to all. What the pot held when staking was initialized is never paid out as rewards. So whatever the history, the amount reserved in the pot covers everything all positions are owed, the pot holds at least that, total stake is the sum of all stakes, and no claim fails or eats into others\' rewards for want of funds.',
  ['stake_pot'], [ST, 'pallets/staking/src/types.rs', 'math/src/staking/math.rs'],
  [('distribution', ST + ' update_rewards'), ('rewards of a position', ST + ' calculate_rewards, get_points'), ('dispatchables', ST + ' initialize_staking, stake, increase_stake, claim, unstake, ensure_stakeable_balance, create_position_and_mint_nft, get_next_position_id'), ('types', 'pallets/staking/src/types.rs Position::new, get_total_locked, StakingData::add_stake')],
  'all positions, stakes, pot balances and block numbers, all sequences of staking operations and of tokens arriving in the pot', 'pallet tests play short scenarios with a handful of stakers and tolerances; solvency is an invariant over every history and every rounding',
  'Exact contracts of the real dispatchables over explicit storage, balances, locks and NFT ownership; solvency as an invariant (sum over all positions) preserved by every one of them.', [FB, CB, 'Processing finished referenda (process_votes) changes only vote records and action points; the payable percentage the runtime configures is at most one (C36); only staking pays out of the pot.'], over=('inputs', 'histories'), observe=['staking records, positions, balances and locks'])
P('C45', 'Staking votes earn points in proportion to stake and conviction',
  'A staking vote counts a tenth per token without conviction and once to six times with conviction one to six, as in democracy. It earns floor(weighted amount*maximum/(six times the stake)) action points. '
  'Hence no vote of at most the stake earns more than the maximum for the action, voting the whole stake at the highest conviction earns exactly the maximum, a higher conviction always counts for more, and more tokens or a higher conviction never earn less.',
  ['stake_votes'], ['pallets/staking/src/types.rs', ST],
  [('conviction', 'pallets/staking/src/types.rs Conviction::multiplier, max_multiplier'), ('points', ST + ' calculate_points_for_action')],
  'all vote amounts, convictions, stakes and action maxima', 'pallet tests use three of the seven convictions and a few amounts',
  'Exact functional contracts; cap and monotonicity lemmas.', [TB, FB], observe=['multipliers and action points'])
XP = 'pallets/xyk/src/lib.rs'
P('C46', 'A constant product pool never loses by trades or by changes of liquidity',
  'A sale or purchase in an XYK pool never lowers the product of its reserves; it moves exactly the quoted amounts, between trader and pool only, within the caps on both sides, never below the seller\'s minimum nor above the buyer\'s maximum, and is accepted exactly when all that holds; what the oracle is told of it are the amounts in the order of the assets. '
  'Providing liquidity takes the offered amount and at most the limit of the other asset, removing pays at most the proportional part; neither lowers what a share redeems for, removing all shares empties and closes the pool. '
  'Whatever the history, the recorded number of a pool\'s shares is the number issued, no two pools have the same share token or account, and a pool is of two different assets.',
  ['xyk_pallet'], [XP, 'pallets/xyk/src/types.rs', 'pallets/xyk/src/trade_execution.rs', 'traits/src/lib.rs', 'traits/src/router.rs', 'math/src/xyk/math.rs', 'math/src/fee.rs', 'math/src/ratio.rs'],
  [('trades', XP + ' validate_sell, validate_buy, execute_sell, execute_buy, sell, buy; traits/src/lib.rs AMM::sell, AMM::buy'), ('liquidity', XP + ' create_pool, add_liquidity, remove_liquidity, get_liquidity_behind_shares'), ('quotes', 'pallets/xyk/src/trade_execution.rs calculate_sell, calculate_buy'), ('fees', XP + ' calculate_fee, calculate_discounted_fee')],
  'all assets, amounts, limits, balances, fee rates and caps, discounted or not, and all sequences of calls', 'pallet tests play single trades with round numbers; that no sequence of trades and liquidity changes drains a pool, and that its shares always match what was issued, is an invariant over all histories and roundings',
  'Exact contracts of the real dispatchables, of the AMM trait\'s provided methods and of the math they call, over explicit storage, balances, issuance and oracle records; product, value per share and bookkeeping lemmas over these contracts.', [TB, FB, CB, 'The account and the name of a pool are those of its unordered pair of assets (hashing and name building, which are not extracted, are injective); pool accounts do not sign; the price oracle and the dusting whitelist keep only their own books.'], over=('inputs', 'histories'), observe=['reserves, balances, share issuance, oracle records'])
OP = 'pallets/omnipool/src/lib.rs'
P('C47', 'An Omnipool trade moves what it quotes and the pool never loses by it',
  'A sale in the Omnipool costs the trader exactly the amount sold and pays at least the minimum asked; a purchase delivers exactly the amount bought for at most the limit. Only the trader and the pool are touched, apart from what the handler of fees takes from the pool. '
  'Neither asset\'s product of reserve and hub reserve falls, even if the handler takes the whole fee but one unit; the caps on the amounts in and out and the assets\' sell and buy permissions are respected, and the hub asset cannot be bought. '
  'The hub asset the pool holds beyond what it has booked to its assets never changes by a trade, the imbalance never becomes positive, and no hub asset is minted. Hooks are told the true states before and after.',
  ['omni_pallet'], [OP, 'pallets/omnipool/src/types.rs', 'pallets/omnipool/src/traits.rs', 'math/src/omnipool/math.rs', 'math/src/omnipool/types.rs'],
  [('trades', OP + ' sell, buy, sell_hub_asset, buy_asset_for_hub_asset, sell_asset_for_hub_asset, buy_hub_asset'), ('books', OP + ' load_asset_state, set_asset_state, update_hdx_subpool_hub_asset, update_imbalance, get_hub_asset_balance_of_protocol_account, process_trade_fee'), ('states', 'pallets/omnipool/src/types.rs AssetReserveState::delta_update, SimpleImbalance Add, Sub, conversions; pallets/omnipool/src/traits.rs AssetInfo::new'), ('quotes', 'math/src/omnipool/math.rs calculate_sell_state_changes, calculate_buy_state_changes, calculate_sell_hub_state_changes, calculate_buy_for_hub_asset_state_changes')],
  'all assets, amounts, limits, reserves, hub reserves, imbalances, fee rates, caps and permissions, and all sequences of trades', 'pallet tests trade round amounts in two or three pools at fixed fees; that the books agree with the balances and no product falls must hold for all reserves, roundings and histories',
  'Exact contracts of the real dispatchables and of the math they call, over explicit storage, balances, issuance and hook records; product, solvency and bookkeeping lemmas over these contracts.', [TB, FB, CB, 'The bits of Tradability (bitflags) and its contains are written out; derived clones are copies.', 'The fees of an asset do not change within a call; the protocol account signs nothing; the oracle and circuit breaker hooks keep only their own books.', 'The handler of trade fees moves only the fee asset and none to the trader; how much it takes is checked by the pallet, not assumed.'], over=('inputs', 'histories'), observe=['balances, booked states, imbalance, hook records'])
P('C48', 'Omnipool liquidity is fair and every share is accounted for',
  'Providing liquidity to the Omnipool takes exactly the amount and gives shares worth no more, at least the asked number; removing it is for the position\'s owner alone and pays at most the proportional part of reserve and hub reserve and at least the asked amount. Neither lowers the reserve behind each remaining share; providing never raises the asset\'s price and stays within its weight cap; permissions and the price barrier are respected. '
  'Only the provider and the pool are touched. The hub asset held beyond what is booked never changes and the imbalance is never positive. Whatever the history of liquidity calls, sacrifices, listings and delistings, the shares of an asset are those of its positions plus the protocol\'s, and each position has its token.',
  ['omni_places'], [OP, 'pallets/omnipool/src/types.rs', 'pallets/omnipool/src/traits.rs', 'math/src/omnipool/math.rs', 'math/src/omnipool/types.rs', 'math/src/ratio.rs'],
  [('liquidity', OP + ' add_liquidity, add_liquidity_with_limit, remove_liquidity, remove_liquidity_with_limit, sacrifice_position, withdraw_protocol_liquidity'), ('listing', OP + ' add_token, remove_token, refund_refused_asset, set_asset_tradable_state, set_asset_weight_cap'), ('books', OP + ' create_and_mint_position_instance, update_hub_asset_liquidity, process_hub_amount, update_imbalance, load_position'), ('quotes', 'math/src/omnipool/math.rs calculate_add_liquidity_state_changes, calculate_remove_liquidity_state_changes, calculate_withdrawal_fee')],
  'all assets, amounts, limits, positions, reserves, prices, fees and imbalances, and all sequences of calls', 'pallet tests provide and withdraw round amounts at a few prices; that nobody is diluted and the shares always add up must hold for all roundings and histories',
  'Exact contracts of the real dispatchables and of the math they call, over explicit storage, tokens, balances and issuance; fairness and bookkeeping lemmas over these contracts, share accounting as an invariant kept by every call.', [TB, FB, CB, 'The bits of Tradability (bitflags) and its contains and union are written out; derived clones are copies.', 'A transfer that fails changes nothing; position tokens are minted and burned by this pallet only; the protocol account signs nothing; the hooks keep only their own books.', 'The price barrier and the external oracle are functions of account, asset and price within a call.'], over=('inputs', 'histories'), observe=['balances, issuance, positions, tokens, booked states, imbalance, hook records'])
LP = 'pallets/lbp/src/lib.rs'
P('C49', 'A bootstrapping pool sells only while it runs, at its weights, and keeps fees',
  'A liquidity bootstrapping pool trades only from its start to its end block, at the weights of that block. A sale costs exactly the amount and pays at least the minimum asked, a purchase delivers exactly the amount for at most the limit, as quoted and within the caps, and is accepted exactly when all that holds; trades never empty the pool. '
  'The fee is taken in the accumulated asset, at the repayment rate exactly until the target is collected, and goes to the pool\'s collector, where it is locked. Only the trader, the pool and the collector are touched. '
  'Whatever the history, a pool is of two different assets, its weights lie between 2% and 98% and always add up to the whole, its sale lasts less than two weeks, and no two pools share a collector for the same asset. Only the owner changes a pool, before it starts, adds to it, and empties and closes it, never while it runs.',
  ['lbp_pallet'], [LP, 'pallets/lbp/src/types.rs', 'pallets/lbp/src/trade_execution.rs', 'traits/src/lib.rs', 'traits/src/router.rs', 'math/src/lbp/lbp.rs', 'math/src/transcendental.rs', 'math/src/fee.rs'],
  [('trades', LP + ' validate_sell, validate_buy, execute_trade, execute_sell, execute_buy, sell, buy; traits/src/lib.rs AMM::sell, AMM::buy'), ('weights', LP + ' calculate_weights, get_sorted_weight, LBPWeightFunction::calculate_weight'), ('fees', LP + ' calculate_fees, is_repay_fee_applied, collected_fees, repay_fee'), ('life of a pool', LP + ' create_pool, update_pool_data, add_liquidity, remove_liquidity, validate_pool_data'), ('quotes', 'pallets/lbp/src/trade_execution.rs calculate_sell, calculate_buy')],
  'all assets, amounts, limits, balances, weights, blocks, fee rates, targets and caps, and all sequences of calls', 'pallet tests trade a few round amounts in one pool at a few blocks; that no trade, update or withdrawal breaks the rules must hold at every block, weight, amount and history',
  'Exact contracts of the real dispatchables, of the AMM trait\'s provided methods and of the math they call (down to the powers), over explicit storage, balances and locks; trade, weight and bookkeeping lemmas over these contracts.', [TB, FB, CB, 'The account of a pool is that of its unordered pair of assets (the hashing, not extracted, is injective); pool accounts do not sign.', 'Balances and locks stay below 2^127, so that adding a fee to the fees collected does not wrap; the weight function configured is the pallet\'s own linear one; a lock of zero is not set.', 'The exact effects on balances of a trade are lemmas for a trader who is not the pool\'s own collector; the contracts cover both.'], over=('inputs', 'histories'), observe=['balances, locks, pool data'])
