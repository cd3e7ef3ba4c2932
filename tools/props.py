#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, quant, why, files, mech, state=None, built=True, assume=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": quant}, why_tests_cant=why, anchors=a,
                  _built=built, _assume=assume))

XY = ["contracts/pool/src/contract.rs", "contracts/pool/src/storage.rs"]
XST = [("reserves", "recorded balance of each asset", "contracts/pool/src/storage.rs DataKey::ReserveA/ReserveB"),
       ("total shares", "recorded LP share supply", "contracts/pool/src/storage.rs DataKey::TotalShares")]
HX = ["histories", "inputs", "configurations"]
QX = "every pool configuration (fee, slippage, spread limits), every pool size in the 128-bit working range, and every sequence of deposits, swaps, withdrawals, donations and settings changes by any users with any limits"
WX = "the tests replay a few scripted sequences with round amounts; rounding, extreme ratios, failed calls in the middle of a history and limit edges are not sampled"

prop("X01", "XYK pool funds always match its books",
 "After any history, each reserve a constant-product pool reports is at most its token balance and differs from it only by tokens sent to the pool directly since the last deposit, and the share total it reports equals all share tokens in circulation including the 1000 locked at the first deposit. Every operation moves exactly the amounts it reports between the caller, the pool and the fee recipient and changes the records by the same amounts. A refused operation changes no balance and no record.",
 HX, QX, WX, XY, [("do_swap / provide_liquidity / withdraw_liquidity update reserves and shares next to the token transfers", "contracts/pool/src/contract.rs")], XST)
prop("X02", "XYK swaps pay the constant-product price less the fee",
 "A swap of x against reserves (offer, ask) buys gross = ask - floor(offer*ask/(offer+x)), of which fee = floor(gross*fee rate) goes wholly to the fee recipient and the rest, which is also the value returned, to the trader. The product of the reserves (fee counted as paid out) never falls by more than the rounding of one unit of the bought asset, and nobody buys at better than the pool's spot price rounded to one unit.",
 HX, QX, WX, XY + ["packages/decimal/src/decimal.rs"], [("compute_swap", "contracts/pool/src/contract.rs"), ("do_swap", "contracts/pool/src/contract.rs")], XST)
prop("X03", "XYK swap limits are always honoured",
 "A swap is executed exactly when its offer is positive and owned, its deadline (if given) has not passed, the pool's fee does not exceed the caller's maximum, the caller's maximum spread is between zero and the pool's limit, the spread in proportion to the gross return does not exceed the caller's maximum (by default the pool's limit), and the trader receives at least the minimum asked for. Otherwise it is refused and nothing changes.",
 HX, QX, WX, XY, [("assert_max_spread and the deadline/fee/minimum checks in do_swap", "contracts/pool/src/contract.rs")], XST)
prop("X04", "XYK deposits are bounded and mint fair shares",
 "A first deposit takes exactly the desired amounts a and b and issues floor(sqrt(a*b)) shares, 1000 of them locked in the pool for ever. A later deposit takes at most the desired amounts, no less than the minima, in the pool's ratio up to the slippage tolerance (the caller's, never above the pool's maximum, else the pool's default), and mints the smaller of the two pro-rata share amounts rounded down, so it never lowers the assets behind an existing share. A deposit that cannot meet these limits or its deadline is refused without effect, and one that can is accepted.",
 HX, QX, WX, XY, [("provide_liquidity, get_deposit_amounts, get_new_total_shares", "contracts/pool/src/contract.rs")], XST)
prop("X05", "XYK withdrawals pay the exact pro-rata share",
 "Burning s of the pool's T shares pays the holder, of each asset, its reserve times s/T with s/T rounded down at 18 decimals and the product rounded down; shares, records and balances fall by exactly that. A withdrawal is refused without effect when its deadline has passed, a payout is below its minimum, or the caller does not hold the shares, and is otherwise always possible.",
 HX, QX, WX, XY, [("withdraw_liquidity, query_share", "contracts/pool/src/contract.rs")], XST)
prop("X06", "XYK quotes equal what execution does",
 "A forward quote returns exactly the amount, fee and spread that executing the same swap in the same state produces, and a share quote exactly what withdrawing those shares pays. A reverse quote returns the offer amount for which the constant-product formula, after the fee, gives the asked amount to within rounding, with the matching spread and fee.",
 HX, QX, WX, XY, [("simulate_swap, simulate_reverse_swap, query_share, compute_offer_amount", "contracts/pool/src/contract.rs")], XST)
prop("X07", "XYK share value is never eroded",
 "Across deposits, swaps and withdrawals the value of one pool share (square root of the product of the reserves per share) never falls, except by the at most one unit of the bought asset that a swap rounds in the buyer's favour. No sequence of operations lets users as a group take out of the pool more of both assets than they put in.",
 HX, QX, WX, XY, [("rounding directions in compute_swap, get_new_total_shares and withdraw_liquidity", "contracts/pool/src/contract.rs")], XST)

ST = ["contracts/pool_stable/src/contract.rs", "contracts/pool_stable/src/math.rs", "contracts/pool_stable/src/storage.rs"]
QS = "every pair of token decimals, every amplification, fee and limit setting, every pool size up to billions of tokens, and every sequence of deposits, swaps, withdrawals, donations and settings changes by any users"
WS = "the tests replay a few scripted sequences on two seven-decimal tokens with small round amounts; other sizes, other decimals, imbalance and rounding are not sampled"
SST = [("reserves", "recorded balance of each asset", "contracts/pool_stable/src/storage.rs"), ("total shares", "recorded LP share supply", "contracts/pool_stable/src/storage.rs")]
prop("S01", "Stable pool funds always match its books",
 "After any history, each reserve a stable pool reports is at most its token balance and differs from it only by tokens sent to the pool directly since the last deposit, and the share total it reports covers all share tokens in circulation. Every operation moves exactly the amounts it reports between the caller, the pool and the fee recipient and changes the records by the same amounts. A refused operation changes no balance and no record.",
 HX, QS, WS, ST, [("do_swap / provide_liquidity / withdraw_liquidity", "contracts/pool_stable/src/contract.rs")], SST)
prop("S02", "Stable swaps follow the amplified invariant less the fee",
 "A stable swap's gross output is the one that keeps the amplified two-asset invariant at the pool's amplification (in token value, whatever the tokens' decimals) up to the solver's tolerance: it is never negative, never exceeds the ask reserve, grows with the offer, and is near one-for-one in a balanced pool. fee = floor(gross*fee rate) goes wholly to the fee recipient and the rest, which is also the value returned, to the trader.",
 HX, QS, WS, ST, [("compute_swap, calc_y, compute_current_amp", "contracts/pool_stable/src/contract.rs, math.rs")], SST)
prop("S03", "Stable swap limits are always honoured",
 "A stable swap is executed only when its offer is positive and owned, its deadline (if given) has not passed, the pool's fee does not exceed the caller's maximum, the caller's maximum spread is between zero and the pool's limit, the shortfall against a one-for-one exchange in proportion to the gross return does not exceed the caller's maximum (by default the pool's limit), and the trader receives at least the minimum asked for. Otherwise it is refused and nothing changes.",
 HX, QS, WS, ST, [("assert_max_spread and the checks in do_swap", "contracts/pool_stable/src/contract.rs")], SST)
prop("S04", "Stable deposits mint fair shares and withdrawals are pro rata",
 "A stable deposit takes exactly the desired amounts and mints shares in proportion to the growth of the pool's invariant, rounded down, never fewer than the caller's minimum and never past its deadline or with a tolerance above the pool's maximum; it never lowers the invariant behind an existing share. Burning s of T shares pays, of each asset, its reserve times s/T rounded down at 18 decimals, never below the caller's minima or past the deadline, and is otherwise always possible.",
 HX, QS, WS, ST, [("provide_liquidity, withdraw_liquidity, compute_d", "contracts/pool_stable/src/contract.rs, math.rs")], SST)
prop("S05", "Stable quotes equal what execution does",
 "A forward quote of a stable pool returns exactly the amount, fee and spread that executing the same swap in the same state produces, and a share quote exactly what withdrawing those shares pays. A reverse quote returns an offer amount which, swapped, yields the asked amount up to the solver's tolerance.",
 HX, QS, WS, ST, [("simulate_swap, simulate_reverse_swap, query_share, compute_offer_amount", "contracts/pool_stable/src/contract.rs")], SST)
prop("S06", "No value can be extracted from a stable pool",
 "Beyond the solver's tolerance, no sequence of swaps returns a trader more of one asset than was put in without giving up the other, and a deposit followed by a withdrawal never returns more of both assets than was deposited. The invariant per share never falls beyond that tolerance over any history.",
 HX, QS, WS, ST, [("calc_y, compute_d, provide_liquidity", "contracts/pool_stable/src")], SST)

SK = ["contracts/stake/src/contract.rs", "contracts/stake/src/distribution.rs", "contracts/stake/src/storage.rs"]
QK = "every set of stakers, every order and timing of bonds, unbonds, distributions in several reward tokens and reward withdrawals, and every amount"
WK = "the tests follow one or two users through a few whole-day steps; they never interleave late joiners, same-second events, several tokens and partial unbonds"
KST = [("stakes", "per-user list of (amount, time)", "contracts/stake/src/storage.rs"), ("total staked", "counter over all users", "contracts/stake/src/storage.rs"), ("reward history", "amount and stake total per distribution", "contracts/stake/src/distribution.rs")]
prop("K01", "Staked shares are fully backed and always returnable",
 "The total stake reported equals the sum of all users' stakes and the LP tokens that entered by bonding; bonding takes exactly the bonded amount (never below the minimum) and records it with the current time, and a user's reported total is the sum of its listed stakes. Unbonding one recorded stake returns exactly its amount to its owner, removes exactly that stake, and is possible at any time; anything that is not one of the caller's own stakes is refused.",
 ["histories", "inputs"], QK, WK, SK, [("bond, unbond, remove_stake", "contracts/stake/src/contract.rs")], KST)
prop("K02", "Stakers are paid exactly what each distribution owes them",
 "A user's withdrawable reward in a token is the sum, over the distributions of that token since the user's last reward withdrawal, of the user's current stakes' pro-rata part of the distributed amount at the stake total of that moment, each scaled by the stake's age in whole days at the distribution capped at 60 over 60 and rounded down; a stake bonded at or after a distribution earns nothing from it. Distributions made in the same second add up and count the stakes of the first of them, and one made in the same second as a reward withdrawal counts for the next second, so that none is lost. Withdrawing pays exactly that amount of every reward token, once, and is possible for every user at any time.",
 ["histories", "inputs"], QK, WK, SK, [("calculate_pending_rewards, withdraw_rewards, distribute_rewards", "contracts/stake/src")], KST)
prop("K03", "Rewards paid out never exceed rewards funded",
 "For every reward token, what stakers have withdrawn plus what they can still withdraw never exceeds what was distributed, so every claim is covered by the contract's balance and staked LP tokens are never used to pay rewards. A distribution is accepted only from the manager or owner, for a token with a distribution flow, and takes exactly its amount from the sender.",
 ["histories", "inputs"], QK, WK, SK, [("distribute_rewards, calculate_pending_rewards", "contracts/stake/src")], KST)

RW = ["contracts/stake_rewards/src/contract.rs", "contracts/stake_rewards/src/distribution.rs", "packages/curve/src/lib.rs"]
prop("R01", "Funded reward curves release and account every token",
 "In the reward-distribution contract, at any moment the tokens distributed and the tokens not yet distributed, as reported, add up to all tokens received, and the contract holds what was received less what was withdrawn. A distribution is always possible and releases exactly (to within one unit per schedule) what the funded schedules, each unlocking linearly over its duration from its start, have unlocked by then, so that everything is released in the end. A user can withdraw its power-weighted part of what was distributed while it was staked, less what it withdrew before, times the age factor of its stakes; claims together never exceed what was distributed, nobody's claim reduces another's, and a withdrawal or unbond pays exactly the reported claim. Funding takes exactly its amount, and is refused without effect when it starts in the past, has no duration, is below the minimum or makes the schedule too complex. The reported annualized reward is the schedules' yearly release per unit of staking power.",
 ["histories", "inputs"], "every schedule of fundings, distributions, bonds, unbonds and withdrawals by any users, and every amount and duration",
 "tests cover single users with one funding and round numbers; combinations of overlapping fundings, late joiners and partial withdrawals are not sampled", RW,
 [("distribute_rewards, withdraw_rewards, fund_distribution, update_rewards", "contracts/stake_rewards/src")])

VS = ["contracts/vesting/src/contract.rs", "contracts/vesting/src/storage.rs", "contracts/vesting/src/utils.rs", "packages/curve/src/lib.rs"]
QV = "every admissible schedule shape, every time, every order of schedule creation and claims by any recipients, and every minter operation"
WV = "tests use a handful of schedules and claim at a few chosen times; arbitrary piecewise schedules, repeated claims and several schedules per recipient are not sampled"
VST = [("vestings", "per (recipient, index): remaining balance and schedule", "contracts/vesting/src/storage.rs")]
prop("V01", "Vesting pays exactly what the schedule has released",
 "At any time a recipient can claim from each of its schedules exactly the total of the schedule minus what the schedule still locks at that time minus what was already claimed; a claim pays exactly that to the recipient and is refused when it is zero. The amount released never decreases over time, is nothing before the start and the whole total from the end on, and claims of one schedule never affect another schedule or recipient.",
 ["histories", "inputs"], QV, WV, VS, [("claim, query_available_to_claim", "contracts/vesting/src/contract.rs"), ("Curve::value", "packages/curve/src/lib.rs")], VST)
prop("V02", "Every vesting schedule is admissible and fully funded",
 "Only schedules that never rise, end at zero, are not constant and are simpler than the complexity limit are accepted, at most one per recipient in one call; creating them moves exactly their total from the admin to the contract, and otherwise nothing happens. At all times the contract holds at least the sum of all unclaimed amounts, so every future claim can be paid.",
 ["histories", "inputs"], QV, WV, VS, [("create_vesting_schedules, validate_vesting_schedule, check_duplications, save_vesting", "contracts/vesting/src")], VST)
prop("V03", "The minter can never mint beyond its capacity",
 "Only the current minter can mint, only a positive amount, and each mint increases the contract's token balance and reduces the minter's remaining capacity by exactly that amount, so minted tokens never exceed the capacity the admin granted. Only the admin changes the capacity, only the current minter hands its role on (keeping the remaining capacity), and burning destroys exactly the caller's own tokens.",
 ["histories", "inputs"], QV, WV, VS, [("mint, burn, update_minter, update_minter_capacity", "contracts/vesting/src/contract.rs")], VST)

FA = ["contracts/factory/src/contract.rs", "contracts/factory/src/storage.rs", "contracts/factory/src/utils.rs"]
QF = "every order of pool creations of both types with any token pairs, parameters and callers, and every liquidity state of the created pools"
WF = "tests create at most three pools with fixed parameters; registry consistency over arbitrary creations, both lookup orders and portfolios over many pools are not sampled"
FST = [("pool list", "addresses of all created pools", "contracts/factory/src/storage.rs"), ("pair map", "token pair to pool", "contracts/factory/src/storage.rs")]
prop("F01", "The factory's registry is exact",
 "The factory's pool list contains exactly the pools it created, each once and in creation order; looking up a token pair in either order gives the pool of that pair and fails for any other pair; and there is never more than one pool per unordered pair. Pool details report each pool's own address, tokens, share token, current reserves, share supply and fee, and the details of all pools are the details of each.",
 ["histories", "inputs", "configurations"], QF, WF, FA, [("create_liquidity_pool, save_lp_vec_with_tuple_as_key, query_for_pool_by_token_pair, query_all_pools_details", "contracts/factory/src")], FST)
prop("F02", "Pool creation is gated and passes parameters faithfully",
 "A pool is created only by a whitelisted caller, for two distinct tokens in order, with fee, slippage, spread and referral settings between 0 and 100%, a fee within the allowed maximum, and positive minimum bond and reward; otherwise nothing is created. The created pool reports exactly the requested type, tokens, fee, fee recipient, limits, admin and default slippage, its share token is controlled by the pool, and its staking contract is bound to that share token with the requested manager, owner, minimum bond and reward.",
 ["inputs", "configurations", "histories"], QF, WF, FA + XY[:1] + ST[:1] + SK[:1], [("create_liquidity_pool, validate_pool_info, deploy_and_initialize_pool", "contracts/factory/src"), ("initialize", "contracts/pool/src/contract.rs, contracts/pool_stable/src/contract.rs, contracts/stake/src/contract.rs")], FST)
prop("F03", "User portfolios report exactly the user's positions",
 "A user's portfolio lists exactly the pools created by the factory in which the user holds LP shares, each with what withdrawing those shares would pay, and, when staking is requested, the stakes the user has in each pool's staking contract. It is available at any time.",
 ["histories", "inputs"], QF, WF, FA, [("query_user_portfolio", "contracts/factory/src/contract.rs")], FST)

MH = ["contracts/multihop/src/contract.rs", "contracts/multihop/src/utils.rs", "contracts/factory/src/contract.rs"]
QM = "every route over pools of either type with any reserves, any amounts and limits, and any state of the pools"
WM = "tests run a few routes on freshly seeded 1:1 pools with fees of 0 to 20%; other ratios, partial failures and limits on intermediate hops are not sampled"
prop("M01", "A multihop swap is exactly its chain of pool swaps",
 "A route pays the recipient exactly what performing its swaps one after another would, feeding each output into the next, with the same effect on every pool and fee recipient, taking exactly the offered amount of the first asset from the recipient and leaving no tokens behind anywhere else. Each hop respects its own minimum and the caller's spread, fee and deadline limits; an empty or broken route, or any failing hop, leaves everything unchanged.",
 ["histories", "inputs", "configurations"], QM, WM, MH, [("swap, verify_swap", "contracts/multihop/src")])
prop("M02", "Multihop quotes match route execution",
 "A route simulation reports exactly the amount that executing the route in the same state pays out and each hop's fee, and changes nothing. A reverse simulation reports an offer amount which, traded along the route, yields at least the asked amount up to per-hop rounding, and each hop's fee.",
 ["histories", "inputs", "configurations"], QM, WM, MH, [("simulate_swap, simulate_reverse_swap, verify_reverse_swap", "contracts/multihop/src")])

TK = ["contracts/token/src/contract.rs", "contracts/token/src/balance.rs", "contracts/token/src/allowance.rs"]
prop("T01", "Token balances are conserved and never negative",
 "The sum of all balances of a pool share token equals everything minted minus everything burned; transfers move exactly their amount from the payer to the payee (also to oneself) and fail without effect when the amount is negative or exceeds the balance. Only the current admin's mint increases the supply, and only an owner's burn or an approved spender's burn decreases it.",
 ["histories", "inputs"], "every sequence of mints, transfers, delegated transfers, burns and admin changes by any accounts with any amounts",
 "tests make a handful of transfers between two or three users", TK, [("transfer, transfer_from, burn, burn_from, mint", "contracts/token/src/contract.rs")],
 [("balances", "per account", "contracts/token/src/balance.rs"), ("allowances", "per (owner, spender), with expiry", "contracts/token/src/allowance.rs")])
prop("T02", "Spenders never exceed a live allowance",
 "A spender can move or burn an owner's tokens only up to the amount the owner last approved for it minus what it spent since, and only until the approval's expiry ledger inclusive; each use lowers the remaining allowance by exactly the amount. A new approval replaces the old one, an approval already expired is refused unless it is zero, and the allowance query reports exactly what can still be spent.",
 ["histories", "inputs"], "every sequence of approvals, spends and ledger advances", "tests approve and spend once or twice", TK, [("read_allowance, write_allowance, spend_allowance", "contracts/token/src/allowance.rs")])

TR = ["contracts/trader/src/contract.rs", "contracts/trader/src/storage.rs"]
prop("D01", "The trader contract only converts and forwards its own funds",
 "Trading swaps the given amount (by default the trader contract's whole balance) of one of its two configured tokens for the other token of the given pool, within the given limits, crediting the proceeds to the trader contract; transfers send exactly the given amount of the named token (by default the output token) to the given recipient, and nothing else ever leaves the contract. Only the admin can trade or transfer, a token outside the configured pair is refused, and reported balances are the contract's actual token balances.",
 ["histories", "inputs", "configurations"], "every pair, pool and output token, every amount or none, and every sequence of trades and transfers", "tests trade a few round amounts", TR,
 [("trade_token, transfer", "contracts/trader/src/contract.rs")])

ALL = ["contracts/%s/src/contract.rs" % c for c in ("pool", "pool_stable", "stake", "stake_rewards", "factory", "multihop", "trader", "vesting", "token")]
prop("A01", "Nobody can act for another account without its signature",
 "Every call that spends an account's tokens or shares, or acts on its stakes, schedules or allowances, succeeds only with that account's authorization, and every administrative call (settings, code upgrade, pool creation, minting, reward funding, trading the trader's funds) only with the authorization of the account entitled to it, given for exactly that call. Without it the call fails and changes nothing; with it no other signature is needed. (Paying staking rewards out to the account that earned them needs nobody's.)",
 ["histories", "inputs", "configurations"], "every entry point of every contract, every caller and every state reached by a valid history", "tests authorise every signer implicitly, so a missing authorization check passes them", ALL,
 [("require_auth at each entry point", "contracts/*/src/contract.rs")])
prop("A02", "Contracts initialize exactly once, with valid settings",
 "Every contract accepts initialization exactly once and refuses a second attempt whatever its arguments, keeping all its settings. Pools refuse settings outside their ranges: fee, slippage, spread and referral between 0 and 100%, a fee within the allowed maximum, tokens in order, valid amplification; staking contracts refuse non-positive minima and zero complexity.",
 ["inputs", "configurations"], "every combination of initial settings, valid and not, and every second initialization", "tests try single bad values", ALL, [("initialize", "contracts/*/src/contract.rs")])
prop("A03", "Settings updates change exactly what was asked",
 "A settings update on a pool or a factory replaces exactly the settings it names by the given values and leaves every other setting and all balances as they were, takes effect on the next operation, and is refused, changing nothing, when a value is outside 0 to 100% or it does not come from the administrator. Whitelist updates add and remove exactly the named accounts, and pools created later run the contract code set last.",
 ["histories", "inputs"], "every sequence of partial updates with any values", "tests update one or two fields once", ALL, [("update_config, update_whitelisted_accounts, update_wasm_hashes", "contracts/{pool,pool_stable,factory}/src/contract.rs")])

CU = ["packages/curve/src/lib.rs"]
prop("C01", "Reward and vesting curves evaluate and combine exactly",
 "A curve equals its first value before its first point and its last value after its last point, passes through all its points, stays between neighbouring points, and is monotone whenever validation calls it monotone; its reported range, size and end are those of its points. The combination of two curves equals at every time the sum of their values up to rounding of one unit per part, exactly at every point of either, and the validations accept exactly the well-formed monotone curves within the complexity limit.",
 ["inputs"], "every pair of curves with any points and every time", "tests evaluate few curves at few times", CU, [("Curve::value, combine, validate*, range, end, size", "packages/curve/src/lib.rs")])
prop("N01", "Fixed-point arithmetic is exact up to one rounding",
 "For both fixed-point types, construction from ratios, percents, permilles, basis points and atomics, addition, subtraction, absolute difference, multiplication, division, inversion, scaling by and conversion to integers, comparison, parsing and printing (of either sign) give the mathematically exact result rounded toward zero at 18 decimals, and powers do up to one such rounding per multiplication; parsing a printed value gives it back. An operation whose true result does not fit fails rather than wrapping.",
 ["inputs"], "all representable operands", "tests check a few dozen constants", ["packages/decimal/src/decimal.rs", "packages/decimal/src/decimal256.rs"], [("Decimal, Decimal256", "packages/decimal/src")])

QY = "every mixture of operations by any users on a whole deployment: both kinds of pools, their staking contracts, the factory, the router, the trader, vesting, reward distribution and tokens"
WY = "the tests exercise each contract alone, with fresh state and a few assertions on the balances of the parties involved"
prop("U01", "Replacing a contract's code keeps everything it records",
 "When the administrator of a contract (pool, stable pool, staking, reward distribution, factory, router, vesting) replaces its code, everything the contract recorded stays exactly as it was: every query answers what it did before, every later operation has the effect it would have had without the replacement, and nothing but the code changes. This also holds for contracts deployed and used with the code of an earlier release and then upgraded to the present one: balances, stakes, settings, schedules and claims they recorded are read back unchanged. Nobody but the administrator can replace the code.",
 HX, QY + ", with the code of any of them replaced at any point", "the tests upgrade freshly initialized contracts at most and look at one value afterwards; they never compare the later history with one without the replacement, nor start from state written by earlier code", ALL,
 [("update / upgrade entry points", "contracts/*/src/contract.rs"), ("storage keys and types", "contracts/*/src/storage.rs")])
prop("Q01", "Queries need no signature and change nothing",
 "Every query and quote of every contract can be asked by anybody without a signature, moves no tokens, emits no transfer and leaves no trace: asking any number of queries at any point of a history, in any order, changes neither the answer to any other query nor the outcome, effect or payout of any later operation.",
 HX, QY + ", with any queries asked in between", "the tests never compare a history with queries to the same one without", ALL,
 [("query_*, simulate_*, getters", "contracts/*/src/contract.rs")])
prop("W01", "Across the whole system tokens move only between the parties of an operation",
 "Whatever is called anywhere in the deployed system, tokens move only between the caller, the contract called, the contracts it acts through and the configured fee recipient. The balances of every other user and contract stay as they were, the router, factory and other intermediaries end with what they started with, no token is created or destroyed except pool shares minted to a depositor or burned by a withdrawer, and after every operation each pool and staking contract still holds what its books say.",
 HX, QY, WY, ALL, [("token transfers at each entry point", "contracts/*/src/contract.rs")])
prop("E01", "Events report exactly what happened",
 "The events an operation publishes tell its effect exactly: the token events account for every balance that changed, and the contracts' own events (swap, provide_liquidity, withdraw_liquidity, bond, unbond, distribute_rewards, withdraw_rewards, create, claim and others) name the account concerned, the tokens and exactly the amounts that changed hands, including commission and spread of a swap. An indexer that only follows events reproduces the balances, stakes and reserves. A refused operation and a query publish nothing.",
 HX, QY, "no test compares published events with balances, except one or two literal lists", ALL, [("env.events().publish", "contracts/*/src/contract.rs"), ("token events", "packages and contracts/token/src")])

prop("L01", "Records in use do not lapse",
 "Whatever an operation or a query reads or changes of a contract's records (balances, reserves, stakes, histories, distributions, schedules, settings, registries) stays available afterwards for at least 29 days of ledgers, and the contract itself and its code for at least six, without anybody restoring them, however soon they would have expired before. So no balance, stake, reward or schedule becomes unreachable as long as it is used or looked at once a month and its contract once in six days. (Replacing a contract's code and the fixed metadata of a share token need not prolong anything.)",
 HX, QY + ", with every record anywhere between its last ledger and months of life left", "the test environment never lets a record expire, so a missing or too short extension passes every test", ALL,
 [("extend_ttl next to each access", "contracts/*/src/storage.rs, distribution.rs, balance.rs"), ("lifetimes", "packages/phoenix/src/ttl.rs")])

prop("G01", "What an operation costs does not depend on how many others use the system",
 "The instructions and memory that an operation or query of an account takes depend only on that account's own positions and on what administrators have set up (pools, flows, distributions, schedules), never on how many other accounts hold tokens, approvals, shares, stakes or schedules in the same contracts or how often they used them: the records an operation has to load and rewrite do not grow with the number of users. So nobody can make another's deposit, withdrawal, swap, claim or transfer unaffordable or impossible by using the system a lot or under many accounts.",
 HX, QY + ", with every number of further accounts", "tests use a handful of accounts and never look at costs", ALL,
 [("records by account", "contracts/*/src/storage.rs, distribution.rs, contracts/token/src/balance.rs, allowance.rs")])

prop("Z01", "Everybody can leave with what is theirs, in any order",
 "At any point of any history, whatever administrators have set by then, every account can take out what it has in the system, in any order and without anybody's help: unbond each of its recorded stakes, collect the staking rewards it is told to be owed, withdraw all of its pool shares that are worth at least one unit of each asset (in one go or in parts) for what the pool quotes, and claim what its schedules have released. None of it is refused, each pays what the corresponding query announced, and once everybody has left nothing is staked, no portfolio lists anything, no staked share stays behind, and the pools keep only the part of the shares locked for ever and rounding dust.",
 HX, QY + ", and every order of leaving", "no test closes a system down", ALL,
 [("unbond, withdraw_rewards", "contracts/stake/src/contract.rs"), ("withdraw_liquidity, query_share", "contracts/pool/src/contract.rs, contracts/pool_stable/src/contract.rs"), ("claim", "contracts/vesting/src/contract.rs")])

def main():
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    built = set(sys.argv[1:]) or set(json.load(open(f"{ROOT}/tools/built.json")))
    json.dump(sorted(built), open(f"{ROOT}/tools/built.json", "w"))
    notes = json.load(open(f"{ROOT}/tools/levels.json")) if os.path.exists(f"{ROOT}/tools/levels.json") else {}
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in built:
            checks.append({"property": i, "quick_cmd": f"bash bin/check {i} quick", "thorough_cmd": f"bash bin/check {i} thorough",
                "technique": notes.get(i, {}).get("technique", "property-based testing: stateful random histories against an independent reference model, with integrated shrinking"),
                "level": "exploration",
                "level_note": notes.get(i, {}).get("note", "Randomised search over generated histories of the real compiled contracts, judged one step at a time by an exact integer reference model; trusts the host environment's emulation of the ledger and its built-in token, and the model.")})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    json.dump({"version": 1, "setup_cmd": "bash bin/build.sh", "checks": checks, "not_applicable": na,
        "notes": "One harness (harness/, Rust) loads the contracts' compiled wasm from /repo/target and searches generated histories; bin/check ID TIER builds from /repo's working tree and runs one property; bin/replay FILE replays a counterexample."},
        open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
main()
