#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/invariant_service.rs"
C = "src/contracts/"
def m(*a):
    return [{"name": a[i], "where": a[i + 1]} for i in range(0, len(a), 2)]

# id, title, statement, over, quantifier text, why tests cannot, files, mechanism, hold note
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": mech}
    if state: a["state"] = [{"name": state[i], "meaning": state[i+1]} for i in range(0, len(state), 2)]
    a["observe_at"] = observe or ["messages to the contract, its replies and events, its read-only queries, and the balances the tokens hold for it"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "The contract always holds at least what it owes",
 "At every moment, for every token (native VARA included) that behaves correctly, the amount the contract holds is at least the sum of all user balances, of what all open positions can be closed for (tokens plus unclaimed fees) and of all accrued protocol fees. Once no token transfer is in flight and nobody sent tokens unasked, what users deposited minus what they withdrew equals exactly what balances account for together with the pools' reserves: no operation creates or destroys tokens. Every rounding goes against the caller: no operation on a pool lets balances and the exact worth of all claims on the pools grow together. A user can never spend or withdraw more of a token than was credited to that user.",
 ["histories", "schedules", "fault_sequences", "inputs"],
 "every history of user calls by any users on any pools, every order in which token messages are executed, answered, lost, timed out and rolled back",
 "Unit tests sample a few fixed swaps and positions on one pool and one user; solvency is a sum over everything that ever happened, including rounding of every swap step and every interleaving of asynchronous token transfers.",
 [S, "src/invariant_storage.rs", C+"storage/pool.rs", C+"storage/position.rs", "calc/math/types/fee_growth.rs", "calc/math/clamm.rs"],
 m("rounding of swap amounts in favour of the pool", "calc/math/clamm.rs compute_swap_step, get_delta_x, get_delta_y",
   "balance book-keeping", "src/invariant_storage.rs increase_token_balance, decrease_token_balance", "transfer settlement", S+" deposit_single_token, withdraw_single_token, reply_handler"))
prop("P02", "A token deposit is credited exactly once, and only if the token paid",
 "A deposit credits the caller's balance of that token by exactly the requested amount if and only if the token contract carried out the transfer to the contract, no matter how late, in which order, or in what form its answer arrives, including after the call timed out. It is credited once, never for a transfer that the token refused or that failed, and the caller is told the truth: a success answer is given only when the amount was credited, an error answer for a refused transfer only when nothing was. A deposit of nothing is refused.",
 ["schedules", "fault_sequences", "histories"],
 "every order of the deposit, the token's execution, its reply (success, refusal, trap, malformed, late or missing), the time-out and the wake-up, interleaved with other calls of the same and of other users",
 "The gtest scenarios answer every transfer immediately and in order; the awaiting/time-out state machine is only correct or wrong under replies that are late, lost, repeated or interleaved with other calls.",
 [S], m("awaiting-token record and reply hook", S+" deposit_single_token, transfer_single_token, reply_handler; the record of awaited transfers"))
prop("P03", "A token withdrawal is paid exactly once or credited back",
 "A withdrawal takes the requested amount (the whole balance when none is named) off the caller's balance at once and, when all answers are in, either the token paid exactly that amount out or the balance is credited back in full, never both and never neither. That holds no matter how late, in which order, or in what form the token's answer arrives, including after the call timed out. A caller can never take out more than was credited to it, and concurrent withdrawals never pay the same balance twice.",
 ["schedules", "fault_sequences", "histories"],
 "every order of the withdrawal, the token's execution, its reply (success, refusal, trap, malformed, late or missing), the time-out and the wake-up, interleaved with other calls",
 "The gtest scenarios answer every transfer immediately and in order; double payment or loss needs a failure, a time-out or a second call at a specific point.",
 [S], m("debit before the transfer, credit on failure", S+" withdraw_single_token, transfer_single_token, reply_handler"))
prop("P04", "The two legs of a two-token transfer settle independently",
 "In a deposit or withdrawal of two tokens in one call, each token's leg ends as if it had been made alone: a leg whose transfer succeeded is settled for its full amount, a leg whose transfer failed leaves the balance as it was before the call, in every combination and in every order of the two answers. The call's answer and the credited balances agree, including when one leg times out. Two legs on the same token are refused.",
 ["schedules", "fault_sequences", "histories"],
 "every combination of outcomes (success, refusal, trap, malformed answer, time-out) of the two transfers and every order of their executions, replies and the wake-up of the call",
 "Existing tests cover a fixed set of failing legs that answer in order within the same block.",
 [S], m("pair futures and the reply hook", S+" deposit_token_pair, withdraw_token_pair, transfer_token_pair, reply_handler"))
prop("P05", "Every call is answered once within its bound and nothing stays stuck",
 "Every message to the contract is answered exactly once: at once for ordinary calls, and for a call that transfers tokens when all its tokens have answered or, at the latest, when its time-out has passed, whatever the tokens do. Once token faults stop and every outstanding transfer is answered, no call is still waiting, every balance is settled, and every user can withdraw all of it. A token that never answers delays only the calls that use it.",
 ["schedules", "fault_sequences", "histories"],
 "every history with faults that stop at some point; bound: the contract's own time-out in blocks, then one wake-up",
 "Liveness under lost and late replies needs executions in which the clock passes the time-out between arbitrary events; tests run one or two such scenarios.",
 [S], m("bounded wait and per-message record", S+" transfer_single_token, transfer_token_pair, reply_handler", "gas kept for the reply", S+" send_transfer_token_message"))
prop("P06", "A token's messages reach only the account and token they belong to",
 "Nothing that another program sends - forged, repeated, late, malformed or re-entrant replies and calls of a hostile token, or raw messages from anyone - changes any balance except the caller's balance of that very token for a transfer that the contract itself asked that token for and that is still outstanding. A lying token can falsify only balances of itself. Messages that are not a valid call are refused without effect.",
 ["schedules", "fault_sequences", "inputs"],
 "every history with any number of hostile tokens and users that send arbitrary payloads and re-enter the contract during their own transfer",
 "The tests use well-behaved test tokens; no test sends a malformed or forged message or re-enters.",
 [S, "src/lib.rs"], m("replies matched by message id", S+" reply_handler and the record of awaited transfers", "payload routing and decoding", "src/lib.rs and the routing of sails"))
prop("P07", "Native VARA: what is attached is credited, what is paid out is debited",
 "Depositing VARA credits the caller with exactly the value attached (nothing when none is); withdrawing pays out exactly the amount asked for (everything when none is named) and debits exactly that, and asking for more than the balance is refused. A call that fails returns the attached value. The contract's native holdings always cover all VARA balances, and VARA can not be moved through the token-transfer calls.",
 ["histories", "inputs", "fault_sequences"],
 "every history of VARA deposits and withdrawals with any values and gas limits, mixed with all other calls, also as pool token",
 "Tests deposit and withdraw fixed amounts once; conservation over histories and values attached to other calls are not looked at.",
 [S], m("value accounting", S+" deposit_vara, withdraw_vara, command_reply with value"))
prop("P08", "A refused or failed call leaves no trace",
 "A call that is refused, traps or runs out of gas at any point leaves every balance, position, pool, tick, fee tier and setting exactly as before, emits no events, and asks no token for anything. This holds for composite operations too: a position, swap or multi-hop route that fails late undoes all of its earlier effects.",
 ["histories", "crash_points", "inputs"],
 "every call in every reachable state, refused for any reason or aborted by exhausting its gas at an arbitrary instruction",
 "Tests check one field after a few refused calls; they never compare the whole state nor abort a call at an arbitrary instruction.",
 [S, "src/invariant_storage.rs", C+"storage/pool.rs"], m("errors abort the message", S+" panic-on-error in every command", "work on copies, store at the end", S+" swap, create_position, remove_position"))
prop("P09", "Nobody can change what belongs to someone else",
 "A call changes token balances only of its caller (the fee receiver for a protocol-fee withdrawal is the caller), and positions only of its caller, except that transferring a position appends it to the receiver's list. In particular no call, in any order with others, lowers another user's balance, removes or alters another user's position, or takes its unclaimed fees.",
 ["histories", "inputs", "schedules"],
 "every history of calls of several users, honest or hostile, on shared pools",
 "Tests use one or two actors and look at the acting one.",
 [S, C+"storage/position.rs", C+"collections/positions.rs"], m("caller as key of balances and positions", S+" (msg source) and "+C+"collections/positions.rs"))
prop("P10", "A swap moves exactly the amounts the curve prescribes",
 "For every swap, the amounts taken and paid, the new price, tick and liquidity, the fee, and the returned result equal what the concentrated-liquidity curve prescribes with every intermediate rounding in the pool's favour, across any number of crossed ticks. The balance of the caller changes by exactly those amounts. A swap that the rules permit is not refused and one that they forbid is.",
 ["histories", "inputs"],
 "every swap (both directions, both exactness modes, any amount and limit) in every state of a pool reachable by any history",
 "Unit tests fix a dozen states; the error classes (tick boundaries, liquidity gaps, ends of the price range, exact hits of a limit) appear only in specific reachable states.",
 [S, C+"storage/pool.rs", C+"collections/tickmap.rs", "calc/math/clamm.rs", "calc/math/types/fee_growth.rs"],
 m("swap loop", "src/invariant_storage.rs calculate_swap", "swap step", "calc/math/clamm.rs compute_swap_step", "tick crossing", C+"storage/pool.rs update_tick and "+C+"storage/tick.rs cross"))
prop("P11", "Liquidity providers can always exit and get what they own",
 "Every open position can be removed by its owner at any time, whatever else happened in the pool, and pays the tokens its liquidity is worth at the current price plus all fees it earned. The same holds for claiming fees, which leaves the position open and is worth nothing when repeated at once. No action of other users, of the administrator or of a token can block an exit.",
 ["histories", "inputs", "schedules"],
 "every open position in every reachable state",
 "Tests close a position in the state they just built; blocked exits (overflow, missing tick, empty pool) need particular histories.",
 [S, C+"storage/position.rs", C+"storage/pool.rs"], m("remove and claim", S+" remove_position, claim_fee; "+C+"storage/position.rs remove, claim_fee", "wrapping fee growth", "calc/math/types/fee_growth.rs"))
prop("P12", "Pool liquidity, ticks and tick bitmap mirror the open positions",
 "After every operation each pool's active liquidity equals the sum of the liquidity of the open positions whose range contains the current tick. A tick is stored and marked as initialised exactly if some open position starts or ends at it, and its gross and net liquidity equal the sums over those positions. Opening a position that is invalid (wrong tick order, spacing or bounds, no liquidity, too much per tick) is refused.",
 ["histories", "inputs"],
 "every history of opening, closing, transferring positions and of swaps crossing them, on all fee tiers and tick spacings",
 "Tests compare two or three ticks after fixed sequences; the invariant must survive every crossing pattern.",
 [C+"storage/pool.rs", C+"storage/tick.rs", C+"collections/tickmap.rs", C+"storage/position.rs", S],
 m("tick update and removal", C+"storage/tick.rs update, "+C+"storage/position.rs modify/remove", "bitmap flips", C+"collections/tickmap.rs flip", "crossing", C+"storage/pool.rs cross/update_tick"))
prop("P13", "The current tick of a pool always matches its price",
 "In every pool, at every moment, the current tick is a multiple of the tick spacing and the current price lies between the price of the current tick and the price of the next one. The price only changes through swaps, moves in the direction of the swap, and never leaves the supported range.",
 ["histories", "inputs"],
 "every reachable state of every pool, including prices exactly on a tick and at the ends of the range",
 "Tests check single transitions; the corner is hit when a swap ends exactly on an initialised tick or a limit.",
 [C+"storage/pool.rs", "calc/math/types/fee_growth.rs", "calc/math/log.rs"], m("tick from price", C+"storage/pool.rs update_tick, calc/math/log.rs get_tick_at_sqrt_price", "initial price check", C+"storage/pool.rs create, calc/math/types/sqrt_price.rs check_tick_to_sqrt_price_relationship"))
prop("P14", "Swap fees reach exactly the liquidity that earned them",
 "Every swap fee, minus the protocol's share, is shared out over the liquidity active at each step in proportion to it; a position can claim exactly what was earned while its range contained the price since it was opened or last claimed, rounded down. Fees earned are unaffected by other positions opening, closing or claiming, by later price moves, or by counter wrap-around, and are never paid twice.",
 ["histories", "inputs"],
 "every history of swaps, positions and claims on all fee tiers",
 "Tests check fees of one or two positions after one swap; fee accounting outside/inside ticks goes wrong only for particular crossing orders.",
 [C+"storage/pool.rs", C+"storage/tick.rs", C+"storage/position.rs", "calc/math/types/fee_growth.rs"], m("fee growth inside", "calc/math/types/fee_growth.rs calculate_fee_growth_inside", "add_fee", C+"storage/pool.rs add_fee", "position update", C+"storage/position.rs update, claim_fee"))
prop("P15", "Protocol fees accrue at the set rate and only their receiver gets them",
 "Each swap adds exactly the configured share of its fee, rounded up, to the pool's protocol fee of the input token. Only the pool's current fee receiver can withdraw it; doing so credits exactly the accrued amounts to its balances and sets them to zero, once. Changing the rate affects only later swaps and changing the receiver only later withdrawals.",
 ["histories", "inputs"],
 "every history of swaps, rate and receiver changes and withdrawals by anyone",
 "Tests withdraw once after one swap.",
 [S, C+"storage/pool.rs"], m("accrual", C+"storage/pool.rs add_fee", "withdrawal", S+" withdraw_protocol_fee; "+C+"storage/pool.rs withdraw_protocol_fee"))
prop("P16", "Limits stated by the caller are always honoured",
 "A swap never moves the price beyond the limit the caller gave, never takes more than the stated input, pays exactly the stated output when one is stated and uses exactly the stated input otherwise, or is refused. A route is refused when it would pay less than the expected amount less the slippage tolerance. A position is opened only while the price is inside the bounds the caller gave.",
 ["histories", "inputs", "schedules"],
 "every call with limits, after any other calls that moved the state between the caller's decision and its execution",
 "Tests try a handful of limits in fixed states; protection matters when other users' calls are ordered in between.",
 [S, C+"storage/position.rs", "calc/math/types/fee_growth.rs"], m("price limit", "src/invariant_storage.rs calculate_swap", "minimum out", S+" swap_route, calculate_min_amount_out", "slippage check", C+"storage/position.rs create"))
prop("P17", "Quotes predict execution and reads change nothing",
 "A quote answers exactly the amounts, price and crossed ticks that the same swap executed next would have, and fails exactly when that swap would be refused for a reason other than the caller's balance; a route quote over distinct pools equals the executed route's output. No quote or query, however it is sent, changes any state or emits events.",
 ["histories", "inputs"],
 "every quote in every reachable state, compared with the execution of the same swap on that state",
 "Tests compare a few quotes with a swap; the two code paths diverge only on specific states and arguments.",
 [S], m("shared swap computation", S+" quote, quote_route, calculate_swap, route"))
prop("P18", "The SDK's simulation agrees with the contract",
 "The client SDK's off-chain simulation of a swap gives the amounts, fee, price and number of crossed ticks that the contract's own quote gives for the same pool, ticks and arguments, or reports an insufficiency when the contract would need ticks it was not given. The SDK's calculation of a position's claimable fees and of its token amounts equals what the contract pays out for that position; its minimum output, its liquidity limit per tick and its tick, price, bound and fee tier rules are those the contract applies.",
 ["histories", "inputs"],
 "every swap, position and pool state reachable by any history; pool, ticks and tickmap read through the contract's queries",
 "The SDK has its own copy of the arithmetic with tests of its own; nothing compares it with the contract.",
 ["sdk/src/wasm/swap.rs", "sdk/src/wasm/clamm.rs", "sdk/src/wasm/math.rs", "sdk/src/wasm/storage/pool.rs", S],
 m("simulation", "sdk/src/wasm/swap.rs simulate_invariant_swap", "fees", "sdk/src/wasm/math.rs calculate_fee", "token amounts", "sdk/src/wasm/clamm.rs calculate_amount_delta", "limits and rules", "sdk/src/wasm/math.rs, sdk/src/wasm/lib.rs, sdk/src/wasm/helpers.rs"))
prop("P19", "Each position belongs to one owner's list and only its owner can act on it",
 "Opening a position appends it to the caller's list; removing one takes exactly the chosen one out (the last one takes its place); transferring one moves it unchanged to the end of the receiver's list. Nobody can remove, claim from or transfer a position of someone else, and indices beyond the list are refused. No position ever appears twice, disappears, or changes its pool, range, or liquidity.",
 ["histories", "inputs"],
 "every history of opening, removing, transferring and claiming by several users, including transfers to oneself",
 "Tests perform one transfer or removal on lists of length one to five.",
 [C+"collections/positions.rs", S], m("position lists", C+"collections/positions.rs add, remove, transfer"))
prop("P20", "Only the administrator can change protocol settings",
 "Only the account that is the administrator can change the protocol fee, add or remove fee tiers and change a pool's fee receiver; anybody else is refused without effect, and the administrator's valid calls take effect exactly as given. No call of anybody can change who the administrator is.",
 ["histories", "inputs"],
 "every call by every kind of account in every reachable state",
 "Tests try each call once with one wrong account.",
 [S, "src/invariant_storage.rs"], m("admin check", S+" add_fee_tier, remove_fee_tier, change_protocol_fee, change_fee_receiver"))
prop("P21", "The registry of fee tiers and pools is exact",
 "A pool exists for a pair of tokens and a fee tier exactly if someone created it while that tier was registered; it can be created once, in either token order, at the price of the given initial tick (which the given price must belong to) and with no liquidity, and never disappears - from the list of pools either - or changes its tokens or tier (a pool beyond the 65,535 that the list can count is refused). A tier can be registered once, only with a valid spacing and fee, and removing it does not affect existing pools.",
 ["histories", "inputs"],
 "every history of tier and pool registration by anyone with any arguments",
 "Tests register a few tiers and pools in fixed order.",
 [S, C+"collections/fee_tiers.rs", C+"collections/pool_keys.rs", C+"collections/pools.rs", C+"storage/pool_key.rs"],
 m("registries", C+"collections/*.rs", "creation", S+" create_pool, add_fee_tier, remove_fee_tier"))
prop("P22", "All views agree, and pages put together give the whole",
 "All read-only queries describe one state: the positions, ticks, tick bitmaps, pools, counts and balances they report agree with each other and with the effect of the calls made so far. Reading a list page by page gives every element exactly once, in order, whatever the page size, a page of positions names each pool once with its positions on that page, and out-of-range requests give an empty answer or an error rather than wrong data.",
 ["histories", "inputs"],
 "every query with any page bounds in every reachable state",
 "Tests read a few pages of fixed lists.",
 [S, C+"collections/tickmap.rs", C+"collections/positions.rs", C+"collections/pool_keys.rs"], m("paged queries", S+" get_positions, get_all_positions, get_pool_keys, get_liquidity_ticks, get_tickmap, get_liquidity_ticks_amount"))
prop("P23", "Every effect is announced by exactly one accurate event",
 "A successful swap, route hop, position opening or closing and tick crossing emits its events exactly once, in the order of the effects, with the pool, account, amounts, liquidity, ticks and price that really changed; refused calls emit none. Events carry the block time at which they happened.",
 ["histories", "inputs"],
 "every call in every reachable state, compared with the change of state it made",
 "Tests look at one event each in a fixed scenario.",
 [S], m("event emission", S+" notify_on in swap, create_position, remove_position, route"))
prop("P24", "Time counters follow the block clock and only it",
 "Pool timestamps, tick time counters and position block numbers equal what the block clock showed when the pool was created and when a tick of it was last crossed or a position in it changed, when the tick was first used or crossed, and when the position was opened; they never run backwards and are unaffected by calls that are refused or by queries.",
 ["histories", "schedules"],
 "every history with arbitrary gaps in block time, including several calls in one block",
 "Unit tests pass fixed timestamps to single functions.",
 [S, C+"storage/pool.rs", C+"storage/tick.rs"], m("time source", S+" exec::block_timestamp; "+C+"storage/pool.rs, tick.rs cross"))
prop("P25", "A route is exactly its swaps, all or nothing",
 "Executing a route of several hops has exactly the effect of executing its swaps one after the other by the same user, each with the previous one's output and no price limit, and returns the last one's output. If any hop is refused, or the output is below the stated minimum, the whole route has no effect.",
 ["histories", "inputs"],
 "every route (any length, repeated pools, cycles) in every reachable state",
 "Tests run one two-hop route.",
 [S], m("route loop", S+" swap_route, route"))
prop("P26", "No sequence of a user's own operations creates value from nothing",
 "Starting from any reachable state, if nobody else acts in between, a user that opens and closes positions, swaps there and back, claims fees and transfers positions to itself never ends with more of one token and no less of the other than it started with plus the fees it had already earned. Value can only move by trading against others' liquidity at the pool's prices.",
 ["histories", "inputs"],
 "every reachable state and every bounded sequence of one user's operations from it",
 "Tests never look for profit; rounding and tick-crossing errors that pay out need a particular state.",
 [S, "calc/math/clamm.rs", C+"storage/pool.rs", C+"storage/position.rs"], m("rounding directions", "calc/math/clamm.rs, "+"calc/math/clamm.rs", "tick crossing", C+"storage/pool.rs update_tick"))
prop("P27", "Positions are charged and paid the exact worth of their liquidity",
 "Opening a position takes from the caller exactly the token amounts that its liquidity and range require at the current price, rounded up, and closing one credits exactly what they are worth then, rounded down, plus its fees. Below, inside and above the range, on its bounds and at the ends of the tick range alike; a caller without enough balance is refused.",
 ["histories", "inputs"],
 "every opening and closing with any range and liquidity in every reachable state",
 "Tests use a few ranges and round amounts.",
 [S, C+"storage/position.rs", "calc/math/clamm.rs", C+"storage/pool.rs"], m("token amounts", "calc/math/clamm.rs calculate_amount_delta; "+C+"storage/pool.rs update_liquidity", "balance changes", S+" create_position, remove_position"))
prop("P28", "The SDK sizes a position to fit the amount given",
 "For an amount of one token, a range and a price, the SDK's liquidity helpers give the largest liquidity whose opening by the contract takes at most that amount of that token (to the last place of the liquidity), whichever way the other token is rounded; the amount of the other token they name is what the contract then takes, except for what a fraction of one unit of liquidity costs and one unit of rounding, and zero when the price is outside the range. They refuse a range in which the given token cannot be used at all.",
 ["histories", "inputs"],
 "every reachable price, any range and any amount the caller holds",
 "SDK tests compute a few fixed examples without a contract to open the position on.",
 ["sdk/src/wasm/math.rs", C+"storage/pool.rs", "calc/math/clamm.rs"],
 m("liquidity from amount", "sdk/src/wasm/math.rs get_liquidity_by_x, get_liquidity_by_y, calculate_x, calculate_y", "what is really taken", S+" create_position; calc/math/clamm.rs calculate_amount_delta"))

prop("P29", "The token program's supply, balances, allowances and roles are exact",
 "In the repository's token program (extended-vft) the total supply always equals the sum of all balances. Minting adds exactly the stated value to the receiver's balance and to the supply and is open to minters only; burning takes exactly the stated value from the holder's balance and from the supply, is open to burners only, and never takes more than the holder has; neither ever wraps around. A transfer moves exactly the stated value, never more than the owner has nor more than the owner allowed when somebody else makes it, and the exchange's transfer requests are carried out by the same rules within the gas they carry. Admins alone grant and revoke roles, and each role is separate from the other two; the program's creator starts with all three. The switch that makes transfers fail for tests has no effect in the program as shipped. A call that does nothing answers false and announces nothing, one that mints, burns, moves or approves answers true and announces exactly what it did, and a refused or aborted call changes nothing.",
 ["histories", "inputs", "fault_sequences"],
 "every history of calls by admins, minters, burners, users and the exchange, any amounts up to 2^256-1, any gas limit",
 "The gtest scenarios of the token program mint, burn and transfer a few fixed amounts by one admin; sums over all holders, boundary amounts, role changes in any order and the interplay with the exchange's own requests are not sampled.",
 ["extended-vft/app/src/services/extended_vft/mod.rs", "extended-vft/app/src/services/extended_vft/funcs.rs", "extended-vft/app/src/lib.rs"],
 m("minting and burning", "extended-vft/app/src/services/extended_vft/funcs.rs mint, burn", "role checks", "extended-vft/app/src/services/extended_vft/mod.rs mint, burn, ensure_is_admin, grant_*, revoke_*", "what the exchange asks of it", S+" transfer_single_token, transfer_token_pair"),
 observe=["messages to the token program, its replies and events, and its read-only queries"])
prop("P30", "Pools are independent of each other",
 "A call about one pool (a swap, a route, opening, closing, moving or claiming a position, creating a pool, appointing its fee receiver, withdrawing its protocol fee) changes only the pools it names or whose position it names: price, tick, liquidity, stored ticks, tick bitmap, fee and time counters, accrued protocol fees, receiver and the positions of every other pool stay exactly as they were, however alike the pools are (the same two tokens at another fee or spacing, a shared token, ticks in the same place). A call about no pool (deposits, withdrawals, fee tiers, the protocol fee rate, a message from a token, a query) changes no pool at all.",
 ["histories", "inputs"],
 "any number of pools over the same tokens and tiers, any history of calls and token replies",
 "Almost every test has one pool; the few with more look at one of them.",
 ["src/contracts/collections/pools.rs", "src/contracts/collections/ticks.rs", "src/contracts/collections/tickmap.rs", "src/contracts/storage/pool_key.rs", "src/invariant_storage.rs", S],
 m("what belongs to which pool", "src/contracts/collections/pools.rs, ticks.rs, tickmap.rs (maps keyed by the whole pool key)", "calls about a pool", S+" swap, swap_route, create_position, remove_position, claim_fee, create_pool, withdraw_protocol_fee, change_fee_receiver"))

TECH = "deterministic simulation of the compiled contract with fault injection: seeded schedules and faults, checked against an executable reference model and invariants after every step"
NOTE = {
 "P29": "Sampled, not exhaustive. Two real programs run in the same simulated chain: the contract and extended-vft (wasm32 builds of /repo). The standard vft-service that extended-vft extends is a git dependency missing here; a stand-in with its interface (vft/service) takes its place, so what is decided of plain transfers, approvals and allowances is how extended-vft passes them on. Trusted: the simulator's reading of the gear runtime's rules and the model of the token's books (sim/src/vft.rs).",
 "P28": "As the default, plus: the SDK's Rust crate (sdk/src/wasm, real code, compiled natively rather than to wasm) computes a liquidity from the state that the contract's queries answer, and the contract opens it on a fork of the simulated chain; also with the next larger liquidity, which must cost more than the amount given.",
 "P18": "As the default, plus: the SDK's Rust crate (sdk/src/wasm, real code, compiled natively rather than to wasm) is linked into the simulator and fed what the contract's queries answer; its simulation, fees, token amounts, bounds and minima are compared with the contract's quote, calls and acceptance. The TypeScript wrapper around it is not run.",
  "P30": "As the default; what other pools look like before and after a call is compared by itself, without the reference model.",
"default": "Sampled, not exhaustive. The real contract (wasm32 build of /repo, all of invariant/contracts/calc) runs; the chain (blocks, queues, waitlist, gas, native value), the tokens and the users are simulated; trusted: the simulator's reading of the gear runtime's rules, the reference model and arithmetic (written independently, in sim/src/model.rs and refmath.rs).",
}
TODO = {}
import sys
claimed = [p["id"] for p in P if p["id"] not in TODO]
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
M = {"version": 1, "setup_cmd": "bin/build.sh sdk vft",
 "checks": [{"property": i, "quick_cmd": f"bin/check.sh {i} quick", "thorough_cmd": f"bin/check.sh {i} thorough",
   "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "exploration", "level_note": NOTE.get(i, NOTE["default"])} for i in claimed],
 "not_applicable": [{"property": k, "reason": v} for k, v in TODO.items()],
 "notes": "No hooks in /repo: the contract is built as shipped (as a wasm module with imported memory) and driven through its exported entry points and the gear system calls it imports."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(M, f, indent=1); f.write("\n")
