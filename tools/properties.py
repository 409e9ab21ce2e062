"""Writes properties.jsonl."""
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs) or ["endpoint results, storage and balances of the contracts after each transaction"],hook_needed=None)))
C='controller/src/'; L='liquidity_layer/src/'; A='price_aggregator/src/'
HI=["histories","inputs"]
p('C01','Market totals equal the sum of the accounts\' positions',
 "After every transaction, each market's total supplied amount equals the sum of all accounts' deposits in it plus the protocol's unclaimed revenue, and its total borrowed amount equals the sum of all accounts' debts (in index-scaled units, exactly). No operation changes a position without changing the total by the same amount, or the reverse.",
 HI,"every history of supply, borrow, withdraw, repay, liquidate, strategy, clean-up, claim and reward transactions, with any amounts and any passage of time",
 "The stable unit tests touch only the math and structs crates; the end-to-end tests check a few fixed histories and never sum positions against pool totals.",
 [L+'liquidity.rs',L+'utils.rs',C+'positions/update.rs'],[('pool updates its totals and returns the updated position',L+'liquidity.rs'),('controller stores the returned position',C+'positions/update.rs')],
 [('supplied/borrowed/revenue','scaled totals of a market',L+'storage/mod.rs'),('positions','scaled positions of an account',C+'storage/mod.rs')])
p('C02','Every pool stays solvent',
 "At every moment, what a pool holds plus what borrowers owe it, interest included, covers what it owes to suppliers and to the protocol, up to rounding dust; bad debt that is written off is charged to the suppliers of that market. No sequence of small or large operations lets anyone take more out than their claim beyond such dust.",
 HI,"every history of operations and elapsed times, with amounts from one base unit to the whole pool",
 "Rounding drains and interest mismatches show only over long histories with particular amounts and index values; tests sample a few.",
 [L+'liquidity.rs',L+'utils.rs','common/rates/src/rates.rs'],[('interest split between suppliers and protocol',L+'utils.rs'),('scaled amounts rounded half up',L+'utils.rs'),('reserve checks before payouts',L+'liquidity.rs')],
 [('pool balance','tokens held by the pool contract',L+'cache/mod.rs')])
p('C03','A borrow is limited by the loan-to-value of the collateral',
 "A borrow succeeds only if, at current prices and indexes, the account's total debt including the new one does not exceed the loan-to-value-weighted value of its collateral, and the account is not liquidatable right after it. A borrow that these limits allow is not refused on that ground, and every item of a bulk borrow is held to the same limit.",
 HI,"every account composition, price vector, elapsed interest and borrow amount, in particular at the exact limit, single or bulk",
 "The limit depends on all positions, prices and indexes at once; tests try a few round amounts well inside or outside it.",
 [C+'lib.rs',C+'positions/borrow.rs',C+'helpers/mod.rs',C+'utils.rs'],[('LTV check on each borrowed item',C+'positions/borrow.rs'),('health check after the borrow',C+'lib.rs')])
p('C04','No withdrawal or strategy leaves an account liquidatable',
 "After a withdrawal, or any strategy that moves collateral or debt (leverage, debt swap, collateral swap, repayment with collateral), an account that still has debt has a health factor of at least one at the prices and interest of that moment; otherwise the transaction is refused with no effect. An account without debt can withdraw everything the pool can pay.",
 HI,"every account composition, price vector, elapsed interest and amount, at the exact limit in particular, including several tokens per call",
 "Needs all combinations of multi-token positions, prices and amounts at the limit; tests cover single fixed cases.",
 [C+'lib.rs',C+'strategy.rs',C+'positions/withdraw.rs',C+'utils.rs'],[('validate_is_healthy after the position changes',C+'utils.rs')])
p('C05','Liquidation only of unhealthy accounts, and never seizes too much',
 "A liquidation succeeds only on an account whose health factor is below one, reduces its debt, and takes from its collateral tokens in proportion to their value no more than the value repaid plus the bonus, which lies between the account's own bonus and the cap and grows as health worsens. Payment beyond what the liquidation needs or the debt owes is returned in full, whatever the number, order or repetition of the payment tokens, and the protocol fee is taken only from the bonus.",
 HI,"every unhealthy or healthy account (single or several collaterals and debts, solvent or not), price vector and list of payments, repeated tokens and overpayments included",
 "The amounts come from a formula over all positions with three candidate targets and fallbacks; tests check a handful of portfolios and never repeated payment tokens.",
 [C+'positions/liquidation.rs',C+'helpers/mod.rs'],[('health check before seizure',C+'positions/liquidation.rs'),('bonus and ideal repayment estimation',C+'helpers/mod.rs'),('proportional seizure and fee',C+'positions/liquidation.rs'),('refunds of excess',C+'positions/liquidation.rs')])
p('C06','Interest accrues exactly once per elapsed time and indexes never fall',
 "Before an operation uses a market, interest for the whole time since the last update, and for no time twice, is added to its borrow index by the compounding formula at the market's rate; the borrow index never decreases and the supply index falls only when bad debt is written off. The interest borrowers are charged is divided exactly between protocol (the reserve factor) and suppliers.",
 HI,"every sequence of operations with any time between them, utilisation and rate parameters",
 "Index arithmetic depends on the whole history of rates and times; tests look at short fixed histories.",
 [L+'utils.rs',L+'liquidity.rs','common/rates/src/rates.rs'],[('global_sync',L+'utils.rs'),('compound interest and rewards split','common/rates/src/rates.rs')],
 [('supply_index/borrow_index/last_timestamp','interest state of a market',L+'storage/mod.rs')])
p('C07','A flash loan is repaid with its fee in the same transaction or fails',
 "A flash loan succeeds only if the borrower's contract returns, within the same transaction and to the pool, at least the amount lent plus the configured fee in the same asset; otherwise everything is undone. The fee is booked as protocol revenue, and only assets with flash loans enabled, amounts within the pool's reserves and contracts that are allowed receivers can be used.",
 ["inputs","histories","fault_sequences"],"every asset, amount and receiver behaviour (repays exactly, less, more, with another asset, nothing, or calls back)",
 "Tests use one cooperative receiver and a few failures; the property quantifies over what the receiver may do.",
 [C+'lib.rs',L+'liquidity.rs',C+'validation.rs'],[('flash_loan repayment check',L+'liquidity.rs'),('endpoint and shard validation',C+'validation.rs')])
p('C08','Nothing else of the protocol can be entered during a flash loan',
 "While a flash loan or a strategy is executing external calls, every operation that changes positions, views of liquidation aside, is refused when called back from the borrower's or router's contract, and the protection is lifted again after success or failure.",
 ["histories","fault_sequences","programs"],"every operation attempted by the called contract at the moment it has control, with any arguments",
 "Tests try no re-entrant receiver for most operations; the property needs each endpoint attempted from inside.",
 [C+'lib.rs',C+'strategy.rs',C+'validation.rs'],[('reentrancy_guard with flash_loan_ongoing',C+'validation.rs')],
 [('flash_loan_ongoing','set while external code runs',C+'storage/mod.rs')])
p('C09','While paused, no user operation takes effect',
 "While the controller is paused, no operation by which users move funds or change positions (supply, borrow, withdraw, repay, liquidation, bad-debt clean-up, flash loan, strategies, threshold and index updates) has any effect, and while the price aggregator is paused it accepts and serves no prices. Unpausing restores everything exactly as it was.",
 ["histories","configurations"],"every user operation in every state reached before or after a pause",
 "Tests do not run every operation in the paused state, nor check that the state is untouched.",
 [C+'lib.rs',C+'strategy.rs',A+'lib.rs',A+'views.rs'],[('require_not_paused at each endpoint',C+'lib.rs'),('pause checks of the aggregator',A+'views.rs')])
p('C10','Only the owner administers, and only the controller moves pool state',
 "Administrative operations (markets, oracles, e-modes, limits, addresses, pausing, rewards, upgrades, aggregator settings) have no effect when called by anyone but the owner, and no operation of a pool that changes its state or pays out tokens has any effect when called by anyone but the controller, whatever the arguments.",
 ["inputs","histories","programs"],"every restricted operation, every caller without the role, any arguments and state",
 "Tests call restricted operations mostly as owner; absence of a check on one of dozens of endpoints is invisible to them.",
 [C+'config.rs',C+'router.rs',C+'lib.rs',L+'liquidity.rs',A+'admin.rs'],[('only_owner endpoints',C+'config.rs'),('only_owner pool endpoints, owned by the controller',L+'liquidity.rs')])
p('C11','Isolated accounts hold one collateral and respect the debt ceiling',
 "An account that holds an isolated asset as collateral holds no other collateral, is in no e-mode and borrows only assets allowed in isolation; an isolated asset cannot enter an account that holds anything else. The outstanding USD debt recorded against an isolated asset rises with each borrow, falls with each repayment or liquidation, is never taken above the asset's ceiling by a borrow, and keeps full precision for assets of any number of decimals.",
 HI,"every history of deposits, borrows, swaps, repayments, liquidations and clean-ups by isolated and other accounts, for isolated assets of various decimals",
 "The tracker is a running sum over the history of all isolated accounts of an asset; tests check one borrow and one repay with an 18-decimals asset.",
 [C+'positions/supply.rs',C+'positions/borrow.rs',C+'utils.rs',C+'router.rs',C+'positions/emode.rs'],[('isolation validation on supply',C+'positions/supply.rs'),('debt ceiling check and tracker',C+'utils.rs')],
 [('isolated_asset_debt_usd','USD debt per isolated asset',C+'storage/mod.rs')])
p('C12','E-mode accounts use only their category\'s assets, with its parameters',
 "An account in an e-mode category can add as collateral or borrow only assets enabled for that use in that category while the category is in force, and those positions get the category's loan-to-value, threshold and bonus in place of the asset's own. An account outside e-mode never gets e-mode parameters, an isolated asset never enters e-mode, and a deprecated category admits no new collateral or debt.",
 ["histories","inputs","configurations"],"every combination of categories, membership flags, deprecation, account modes and operations, including configuration changes between operations",
 "Depends on configuration changes interleaved with operations; tests exercise one category with fixed membership.",
 [C+'positions/emode.rs',C+'config.rs',C+'positions/supply.rs',C+'positions/borrow.rs'],[('apply_e_mode_to_asset_config and validations',C+'positions/emode.rs')])
p('C13','A siloed debt is never mixed with another debt',
 "No borrow gives an account a second debt asset when either the asset it already owes or the new one is siloed, whether in one call or over several, directly or by a leveraged position; and no debt swap involves a siloed asset.",
 ["histories","inputs"],"every sequence and bulk list of borrows and strategies over siloed and other assets",
 "Tests try two pairs of single borrows; bulk lists and strategies are not covered.",
 [C+'positions/borrow.rs',C+'strategy.rs'],[('siloed checks on borrow',C+'positions/borrow.rs'),('siloed check on debt swap',C+'strategy.rs')])
p('C14','Supply and borrow caps bound the market totals',
 "No supply takes a market's total supplied amount, and no borrow its total borrowed amount, interest included (save the protocol's share of the interest that accrues in that very transaction), above its configured cap, counting everything added in the same transaction; amounts up to the cap are accepted, and an absent or zero cap means no limit.",
 HI,"every amount around the cap, with interest accrued on the total, in single and bulk operations and strategies",
 "Tests check one amount over the cap, without accrued interest or bulk lists.",
 [C+'positions/supply.rs',C+'positions/borrow.rs'],[('validate_supply_cap',C+'positions/supply.rs'),('validate_borrow_cap',C+'positions/borrow.rs')])
p('C15','Accounts never exceed the configured number of positions',
 "No operation gives an account more deposit or borrow positions than the configured limits, counting distinct new assets of a bulk call once, and adding to an existing position is never refused for that reason.",
 ["histories","inputs","configurations"],"every list of assets, repeated entries included, account composition and limit, with limits changed in between",
 "Tests cover one limit with single supplies.",
 [C+'validation.rs',C+'utils.rs',C+'strategy.rs'],[('validate_bulk_position_limits',C+'validation.rs')])
p('C16','Only fresh prices within tolerance are used for risky operations',
 "Where an asset has two price sources, operations that add risk are refused when the sources disagree by more than the outer tolerance; within the inner tolerance the safe source is used, in between the average, and an operation that cannot harm the pool may proceed outside it on the safe price. A feed older than its allowed age, absent or paused is never used, and each asset is priced by exactly the sources configured for it.",
 ["inputs","configurations","histories"],"every pair of source prices around the tolerance bounds, every age around the staleness bound, every source configuration and operation",
 "Tests try a few deviations and one stale price.",
 [C+'oracle/mod.rs',C+'lib.rs',A+'views.rs'],[('calculate_final_price and tolerance bands',C+'oracle/mod.rs'),('staleness check of the feed',C+'oracle/mod.rs'),('allow_unsafe_price per operation',C+'lib.rs')])
p('C17','Bad debt is written off only for hopeless accounts, against their market',
 "The clean-up of an account succeeds only if its debt exceeds its collateral and the collateral is worth at most five dollars; it removes the account's positions, charges each remaining debt to the suppliers of that market once by lowering the supply index (never below its floor), and books the remaining collateral as protocol revenue. Anyone may trigger it; accounts not in that state are left alone.",
 HI,"every account around the two conditions, with several collaterals and debts, and any pool composition",
 "Tests cover one write-off; the boundary conditions and effect on the other suppliers need many portfolios.",
 [C+'positions/liquidation.rs',L+'liquidity.rs',L+'utils.rs'],[('can_clean_bad_debt condition',C+'positions/liquidation.rs'),('seize_position and apply_bad_debt_to_supply_index',L+'liquidity.rs')])
p('C18','Only protocol revenue, at most once and only from reserves, is claimed',
 "Claiming revenue pays the accumulator exactly the protocol's accumulated share of a market, limited by the tokens the pool holds, removes the same amount from the protocol's claim so it is never paid twice, and never reduces what suppliers are owed. Rewards added to a market go to its suppliers in full, in proportion to their deposits.",
 HI,"every reserve level (full, partial, empty), revenue amount and order of claims and rewards",
 "Partial claims under low reserves and repeated claims are history-dependent; tests claim once.",
 [L+'liquidity.rs',C+'router.rs',L+'utils.rs'],[('claim_revenue proportional burn',L+'liquidity.rs'),('add_external_rewards',L+'liquidity.rs')])
p('C19','Aggregated prices are medians of enough distinct recent oracle submissions',
 "The aggregator publishes a price for a pair only when the configured number of distinct oracles have submitted in the same round within its time window, and the price is the median of those submissions; each round counts an oracle's first submission only, and rounds increase by one. Submissions by non-oracles, with timestamps in the future or too old, or while paused are refused, and the configured count stays between one and the number of oracles.",
 ["histories","schedules","inputs"],"every interleaving of submissions by several oracles on several pairs with time passing, oracle changes and pauses",
 "Tests submit one fixed round; ordering, expiry and membership changes are not explored.",
 [A+'lib.rs',A+'utils.rs',A+'median.rs',A+'admin.rs',A+'views.rs'],[('submission and round creation',A+'utils.rs'),('median',A+'median.rs')],
 [('rounds','latest price per pair',A+'storage.rs'),('submissions','prices submitted in the current round',A+'storage.rs')])
p('C20','Only the holder of an account\'s NFT can take from it',
 "Withdrawing, borrowing or restructuring an account is possible only for the caller who presents that account's own NFT, which is given back afterwards and burned when the account is emptied; anyone may add collateral, repay or liquidate without changing anybody else's account. Each new account gets a fresh number, and its attributes (mode, e-mode, isolation) stay as created.",
 ["histories","inputs","programs"],"every caller, presented token and account, including transferred, foreign, fake and burned NFTs",
 "Tests use the rightful holder nearly everywhere.",
 [C+'positions/account.rs',C+'validation.rs',C+'utils.rs'],[('validate_account and NFT payment check',C+'utils.rs'),('create_account_nft / burn',C+'positions/account.rs')],
 [('accounts/account_attributes','active accounts',C+'storage/mod.rs')])
p('C21','Every transaction moves exactly the tokens it should',
 "Tokens are neither created nor lost: each transaction debits the caller by exactly what was paid minus what is returned, credits exactly the amount borrowed, withdrawn or refunded to its rightful receiver, and changes the pool's holdings by the difference; nothing stays behind in the controller. A withdrawal pays at most the deposit with its interest, an overpaid debt is refunded, and failed transactions leave everything as it was.",
 HI,"every operation, amount (zero, one unit, exact, excessive) and token, on every history",
 "Tests compare a few balances with tolerances, not all balances exactly after every step.",
 [L+'liquidity.rs',C+'positions/withdraw.rs',C+'positions/repay.rs',C+'strategy.rs'],[('cap at full position and refunds',L+'liquidity.rs'),('transfers to the caller',L+'utils.rs')])
p('C22','The read-only views agree with what transactions will do',
 "The views of health factor, liquidation availability, collateral, debt, prices, indexes, rates, reserves and liquidation estimates report, in any state, exactly the values the next transaction in the same block would use, and change nothing.",
 ["histories","inputs"],"every state reachable by transactions and every account, asset and payment list",
 "Tests compare views in a few states to expected constants.",
 [C+'views.rs',L+'view.rs'],[('views share the computation of the endpoints',C+'views.rs')])
p('C23','Derived prices follow the rate or reserves, never a manipulable balance',
 "The price of a liquid-staking token is its on-chain exchange rate times the underlying's price, and the price of an LP token is the fair value computed from the pool's reserve product and its two tokens' oracle prices, so that moving the pool's reserve ratio by trading does not raise it; both follow their underlying feeds' freshness and tolerance rules. Inactive pairs and missing sources give no price.",
 ["inputs","configurations"],"every reserve ratio, LP supply, exchange rate and underlying price",
 "Tests check one balanced pair.",
 [C+'oracle/mod.rs'],[('LP fair value formula',C+'oracle/mod.rs'),('derived token price',C+'oracle/mod.rs')])
p('C24','Invalid configurations are refused and valid ones take effect exactly',
 "No administrative operation can leave an asset, e-mode, oracle, interest model or limit outside its legal range (an asset's threshold above its loan-to-value; a market's maximum rate above its base rate, its utilisation points ordered and below one, its reserve factor below one; oracle tolerances within their bounds; protocol addresses that are existing contracts; known and not duplicated assets, markets and oracles), and an accepted one sets exactly the given values and nothing else.",
 ["inputs","configurations"],"every parameter vector around each bound, on every asset and category, in every order",
 "Tests try a few invalid values; each bound and each pair of related parameters needs probing.",
 [C+'config.rs',C+'router.rs',C+'validation.rs',L+'utils.rs',L+'liquidity.rs'],[('require! checks in the setters',C+'config.rs'),('validate_interest_rates',C+'validation.rs'),('oracle tolerance range validation',C+'helpers/mod.rs')])
p('C25','Risk-parameter updates reach open positions only when that is safe',
 "Applying a changed liquidation threshold to an existing position succeeds only if its account keeps a health factor with the five percent margin; changes of loan-to-value, bonus and fee are applied without touching the threshold. An update affects only the named asset's deposit in the named accounts, uses the e-mode parameters for accounts in e-mode, and otherwise a position keeps the threshold it was opened with.",
 ["histories","inputs","configurations"],"every order of parameter changes, updates, deposits and borrows over several accounts",
 "Tests change one parameter on one account.",
 [C+'positions/supply.rs',C+'lib.rs'],[('update_position_threshold and safety factor',C+'positions/supply.rs')])
p('C26','A strategy equals its component steps at the amounts actually swapped',
 "Leverage, debt swap, collateral swap and repayment with collateral change the account exactly as borrowing, withdrawing, supplying and repaying the amounts involved would: the borrowed or withdrawn amount (less the flash fee on borrows, which becomes revenue) is what is swapped, and what the swap returns of the wanted token is what is supplied or repaid, excess and leftovers going to the caller. They obey the same flags, caps, modes, limits and price rules as the components, and malformed calls (same token, wrong mode, missing steps) are refused.",
 ["inputs","histories","programs"],"every account, token pair, amount and behaviour of the swap router (pays more, less, other tokens)",
 "Tests use a fixed swap rate and one route per strategy.",
 [C+'strategy.rs',L+'liquidity.rs'],[('process_* strategy functions',C+'strategy.rs'),('create_strategy',L+'liquidity.rs')])
p('C27','The interest-rate curve is the configured piecewise-linear, capped one',
 "At any utilisation the borrow rate equals the configured base and slopes (three linear segments meeting at the two kink points), never above the configured maximum; the deposit rate is the borrowers' payments less the reserve factor, spread over the suppliers. A change of the model accrues the interest of the past under the old one.",
 ["inputs","configurations"],"every utilisation from zero to full and every legal parameter vector",
 "The unit tests probe a few utilisations of one parameter set.",
 ['common/rates/src/rates.rs',L+'liquidity.rs',L+'view.rs'],[('calculate_borrow_rate / calculate_deposit_rate','common/rates/src/rates.rs'),('sync before update_params',L+'liquidity.rs')])
p('C28','Fixed-point arithmetic rounds half up at every scale',
 "Multiplication, division and rescaling of fixed-point numbers, unsigned and signed (ties away from zero), yield the exact result of their operands rounded half up to the requested number of decimals, for every operand magnitude and scale in use (an operand with more decimals than requested is first cut to them); rescaling up is exact.",
 ["inputs"],"all operands and scales (0 to 27 decimals) used by the contracts",
 "Unit tests check tens of examples; rounding errors show at ties and scale changes.",
 ['common/math/src/math.rs'],[('mul_half_up, div_half_up, rescale_half_up and signed variants','common/math/src/math.rs')])
p('C29','Debts can be repaid and free collateral taken out whatever restrictions are in force',
 "While the protocol runs, a repayment of an existing debt of any account, by anyone, in any amount, is accepted, and an account without debt can withdraw any part of a deposit that the pool can pay: supply and borrow caps, debt ceilings, position limits, deprecated e-mode categories, assets no longer enabled as collateral or for borrowing, siloed or isolation flags changed since, disagreeing price sources and stale prices of assets not involved stop neither.",
 ["histories","inputs","configurations"],"every account, every change of configuration made after it was opened, every state of prices and caps, every amount",
 "Needs the product of configuration changes after the fact with every kind of position; tests repay and withdraw under the configuration the position was opened with.",
 [C+'positions/repay.rs',C+'positions/withdraw.rs',C+'lib.rs',L+'liquidity.rs'],[('repay: no check but payment and debt position',C+'positions/repay.rs'),('withdraw: prices read leniently when there is no debt',C+'lib.rs'),('reserve check',L+'liquidity.rs')])
p('C30','An unhealthy account can always be liquidated',
 "While the protocol runs and its prices are sane, a payment of positive value in a debt token of an account whose health factor is below one is accepted as a liquidation if the pools can pay the collateral, whatever the account's mix of tokens, bonuses and thresholds, the size of the payment, and the caps, modes and limits in force; it does not fail for arithmetic reasons.",
 ["histories","inputs","configurations"],"every composition of an unhealthy account, from barely unhealthy to hopeless, and every payment from dust to several times the debt",
 "Refusals appear only for particular combinations of bonus, threshold, price and payment; tests liquidate a few fixed portfolios.",
 [C+'positions/liquidation.rs',C+'helpers/mod.rs'],[('estimate with fallbacks',C+'helpers/mod.rs'),('payment and refund partition',C+'positions/liquidation.rs')])
p('C31','A transaction touches only the accounts and markets concerned, and all or nothing',
 "A transaction that is refused leaves every account, market, balance and setting as it was. One that succeeds changes positions of no account but the one it is made for, and totals, indexes and reserves of no market but those it names (for a liquidation or clean-up, those of the account's positions); balances of bystanders do not change.",
 HI,"every transaction on a world of several accounts sharing the same markets",
 "Tests look at the account and market they act on, not at all the others.",
 [C+'lib.rs',C+'storage/mod.rs',L+'liquidity.rs'],[('positions keyed by account and asset',C+'storage/mod.rs'),('one pool per asset',C+'router.rs')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
