#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the entries stay uniform)."""
import json, os
L='programs/core/src/lib.rs'; C='programs/core/src/context.rs'; A='programs/core/src/access_control.rs'
S='programs/core/src/states/'; M='programs/core/src/libraries/'
P=[]
def p(id,title,st,over,qt,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
H=["histories","inputs"]
NOUT="The unit tests only call the pure math and the per-account state helpers on sampled values; no stable test executes an instruction handler, so nothing is said about "

p("C01","Pools stay solvent",
 "After any history of successful instructions, each pool vault holds at least everything the pool owes in that token: what every position would receive for its liquidity at the current price, plus every position's credited and accrued uncollected fees, plus uncollected protocol fees. If every position were closed and collected and the protocol fees withdrawn, in any order, every payment would succeed in full.",
 H,"every history of pool creation, mint, burn, swap, collect, NFT and protocol operations, every price, tick range, fee tier and amount",
 NOUT+"a whole history of deposits, swaps and withdrawals against one vault.",
 [L,S+'position.rs',S+'tick.rs',M+'swap_math.rs',M+'sqrt_price_math.rs'],
 [("rounding in the pool's favour",M+'sqrt_price_math.rs'),("balance checks after callbacks",L+" mint/swap"),("fee growth accounting",S+'tick.rs get_fee_growth_inside')],
 ["vault token balances","position, tick and pool accounts after every transaction"],
 [("tokens_owed","withdrawable by a position",S+'position.rs'),("protocol_fees_token_*","withdrawable by the protocol",S+'pool.rs')])
p("C02","Liquidity providers can always exit with what they are owed",
 "The owner of a position can at any time remove any part of its liquidity and collect, whatever other users did before. They receive exactly the two token amounts the pool curve assigns to that liquidity at the current price (rounded down), plus the credited fees they ask for, never less and never more.",
 H,"every position, history, price and partial or full amount",
 NOUT+"withdrawals after other users' swaps and deposits.",
 [L,S+'position.rs',M+'sqrt_price_math.rs'],
 [("burn credits tokens owed",L+" burn"),("collect pays tokens owed",L+" collect")],
 ["token balances of the recipient before and after burn and collect"])
p("C03","Swap amounts follow the pool curve",
 "The input and output of every swap are the amounts the constant-product curve gives for the active liquidity of each price range it passes through, plus the pool's fee on the input. All rounding favours the pool: a trader never receives more, and never pays less, than the exact curve with the full fee would give.",
 H,"every pool state, direction, exact-input and exact-output amount, price limit and number of initialized ticks crossed",
 "compute_swap_step is tested on a handful of values; the multi-tick loop, the tick transitions and the exact-output accumulation run in no stable test.",
 [L,M+'swap_math.rs',M+'sqrt_price_math.rs'],
 [("swap loop",L+" swap"),("compute_swap_step",M+'swap_math.rs')],
 ["trader and vault balances around a swap","pool price, tick and liquidity after it"])
p("C04","Swaps honour amount, direction and price limit",
 "A swap never takes more input, nor pays more output, than the specified amount, moves the price only in its own direction and never beyond the price limit. It stops early only at the limit, succeeds whenever it is valid, and is rejected if the amount is zero or the limit is on the wrong side of the price or outside the price range.",
 H,"every pool state, amount (positive or negative), direction and limit, including limits on tick boundaries",
 NOUT+"limits, exhaustion of liquidity or termination of the swap loop.",
 [L],[("limit and amount guards",L+" swap"),("loop condition",L+" swap")],
 ["result of the swap instruction","balances and pool price before and after"])
p("C05","Router swaps respect the trader's minimum output",
 "A router swap, over one pool or over a path, succeeds only if the trader's account for the final token received at least the stated minimum and no more than the stated input was taken. A swap that meets the minimum exactly succeeds, and one that falls one unit short fails and moves nothing.",
 H,"every pool state, path of one or more pools, amount and minimum, including the exact boundary",
 NOUT+"the router.",
 [L],[("TooLittleReceived checks",L+" exact_input_single / exact_input"),("exact_input_internal",L)],
 ["trader token balances before and after"])
p("C06","Liquidity operations respect desired and minimum amounts",
 "Opening or increasing an NFT position takes at most the desired amount of each token, buys the most liquidity those amounts allow to within rounding, and fails if less than the stated minimum of either token would be used. Decreasing a position fails if the amounts credited for the removed liquidity (not counting fees) are below either stated minimum; meeting both minimums exactly is accepted.",
 H,"every pool price relative to the range, desired amounts and minimums including both exact boundaries, and any fees accrued in between",
 "get_liquidity_for_amounts is tested on ten values; the slippage checks in the handlers run in no stable test.",
 [L,M+'liquidity_amounts.rs'],[("PriceSlippageCheck",L+" add_liquidity / decrease_liquidity"),("get_liquidity_for_amounts",M+'liquidity_amounts.rs')],
 ["balances of the payer","position accounts","instruction result"])
p("C07","Deadlines are enforced",
 "Each instruction that takes a deadline (opening, increasing and decreasing NFT positions, router swaps) fails without effect when the chain time is later than the deadline. It is not refused for its deadline when the chain time is equal to it or earlier.",
 ["inputs","histories"],"every deadline value, including negative, equal to the chain time, one second either side and the extremes",
 NOUT+"deadlines.",
 [L,A],[("check_deadline",A)],["instruction result at a given clock"])
p("C08","Multi-hop swaps chain exactly",
 "A path swap behaves as the sequence of single-pool swaps in path order: each hop spends exactly what the previous hop paid out (less only where its pool runs out of price range), and the trader's balances of intermediate tokens are unchanged at the end. The final output and the state of every pool equal those of executing the hops one by one.",
 H,"every path, including ones visiting a pool twice, and every starting balance of intermediate tokens",
 NOUT+"the router's account walking or amount chaining.",
 [L],[("exact_input hop loop",L+" exact_input"),("exact_input_internal result",L)],
 ["trader balances in every token of the path","pool states"])
p("C09","Liquidity bookkeeping matches the open positions",
 "At all times a pool's active liquidity is the sum of the liquidity of the positions whose range contains the current tick. Each tick account records the gross and net liquidity of the positions bounded by it, a tick is marked in the bitmap exactly when some position's liquidity uses it, and the current tick agrees with the current price.",
 H,"every history of deposits, withdrawals and swaps, prices on tick boundaries, negative ticks, all tick spacings",
 "TickState, bitmap and liquidity helpers are tested alone; agreement between accounts after a history is tested nowhere.",
 [L,S+'tick.rs',S+'tick_bitmap.rs',M+'liquidity_math.rs'],
 [("TickState::update",S+'tick.rs'),("flip_bit",S+'tick_bitmap.rs'),("cross in swap",L)],
 ["pool, tick, bitmap and position accounts after every transaction"])
p("C10","Swap fees go pro rata to in-range liquidity",
 "Each swap's fee, less the protocol share, is shared among exactly the positions in range over each part of the price path, in proportion to their liquidity, to within rounding down. Liquidity added later or out of range earns nothing from it, and pokes, partial collects and the order of operations never create, lose or move earned fees.",
 H,"every history of overlapping positions, tick crossings, re-initialized ticks, pokes and collects",
 "get_fee_growth_inside and PositionState::update are tested on fixed values; attribution across crossings is not.",
 [L,S+'tick.rs',S+'position.rs'],
 [("fee growth global/outside/inside",S+'tick.rs'),("PositionState::update",S+'position.rs'),("swap fee growth update",L)],
 ["tokens owed by positions, inside fee growth from accounts, collected balances"])
p("C11","Protocol fees are the set share and only that can be withdrawn",
 "Each swap accrues to the protocol, in the input token, the configured fraction of the fee (rounded down in each price step) and nothing else. A protocol withdrawal pays the minimum of the request and the accrued amount of each token, reduces the accrual by exactly that, and never touches what belongs to positions.",
 H,"every protocol share setting changed at any time, every swap and withdrawal request",
 NOUT+"protocol fees.",
 [L],[("protocol fee split in swap",L),("collect_protocol",L)],
 ["protocol fee fields of the pool account","vault and recipient balances"])
p("C12","NFT positions are isolated from one another",
 "Each NFT position is entitled to exactly the liquidity deposited into it, the amounts released by removing that liquidity and the fees that liquidity earned, even when several NFT positions share the same pool and range. No operation on one NFT position changes what another is entitled to or lets its holder withdraw more than their own entitlement.",
 H,"every set of NFT positions, sharing or not sharing ranges and pools, and every interleaving of increase, decrease, collect and swaps",
 NOUT+"tokenized positions.",
 [L,S+'tokenized_position.rs',C],
 [("tokenized position fee snapshot and owed amounts",L+" increase/decrease/collect_from_tokenized"),("binding of the NFT to its pool and range",L)],
 ["tokenized position accounts","amounts paid out","token balances"])
p("C13","Only the NFT holder or delegate can withdraw from an NFT position",
 "Removing liquidity from, or collecting from, an NFT position needs the signature of the current holder of that position's NFT or of a delegate the holder approved for it. Former holders, revoked delegates, holders of other NFTs and accounts with a zero balance are refused, and the rights follow the NFT when it is transferred.",
 H,"every signer, NFT token account, delegation state and transfer history",
 NOUT+"is_authorized_for_token.",
 [L,A,C],[("is_authorized_for_token",A),("nft_account.mint constraint",C)],
 ["result of decrease/collect instructions with hostile signers"])
p("C14","Each NFT position has exactly one NFT",
 "Opening an NFT position mints exactly one indivisible token, to the stated recipient, on a fresh mint bound to that position. No instruction can mint another, alter the record's mint, pool or range, or make a second position record for the same NFT; attaching metadata is possible once for any position NFT, describes that NFT alone, leaves nobody able to change it and ends minting for good.",
 H,"every history of NFT operations and metadata calls by any caller",
 NOUT+"NFT minting or metadata.",
 [L,C],[("init mint and mint_to",L+" mint_tokenized_position"),("set_authority None",L+" add_metaplex_metadata")],
 ["NFT mint supply, decimals and authority","tokenized position account"])
p("C15","Only the protocol owner can administer the protocol",
 "Changing the owner, enabling fee tiers, setting the protocol fee share and withdrawing protocol fees succeed only when signed by the current protocol owner. Control moves completely and at once on a change of owner, and the protocol can be initialized only once.",
 H,"every caller, signature set and history of ownership changes",
 NOUT+"authorization.",
 [L,C],[("address = factory_state.owner",C)],
 ["result of admin instructions from every kind of caller","factory account"])
p("C16","Only a position's owner can withdraw from it",
 "Liquidity of a directly held position can be removed, and its credited tokens collected, only with the signature of the address the position belongs to, from exactly that position's account. An operation by anyone else never reduces its liquidity or credited tokens.",
 H,"every caller, position and attempted combination of owner, range, pool and position account",
 NOUT+"account validation.",
 [L,C,S+'pool.rs'],[("validate_position_address",S+'pool.rs'),("Signer owner",C)],
 ["position accounts and instruction results"])
p("C17","Tokens move only as the instruction and signer allow",
 "Each instruction moves exactly the tokens it accounts for: user accounts are debited only when their owner or delegate signed, vaults are debited only for swap output, collected position tokens and protocol fees, and the amount leaving one account equals the amount arriving at the other. No other token account or user account changes.",
 H,"every instruction, caller and history; the complete set of changed accounts of every transaction is inspected",
 NOUT+"token movements.",
 [L],[("token::transfer calls",L)],["every account changed by every transaction"])
p("C18","Wrong or forged accounts are rejected",
 "An instruction succeeds only with the accounts that belong to the pool, ticks, position, oracle slots and vaults it operates on. Passing instead an account of another pool, tick, word, range, owner, NFT, token or type, or a forged look-alike owned by another program, makes it fail without effect.",
 ["inputs","histories"],"every instruction, every account slot and every substitute available to an attacker, including jointly consistent sets belonging to another position",
 NOUT+"account validation.",
 [L,C,S+'pool.rs'],[("validate_*_address",S+'pool.rs'),("vault address checks",L),("Anchor constraints",C)],
 ["instruction results and account changes under substitution"])
p("C19","Pools are locked while in use and callbacks must pay",
 "While a swap or liquidity operation on a pool is in progress, every other operation that changes that pool is refused, and the pool is usable again as soon as the operation ends. A swap or deposit whose payment callback does not bring the full amount owed of each token into the pool's vault fails entirely.",
 ["fault_sequences","histories"],"every payment callback behaviour (under-payment by one unit, wrong token, nothing, over-payment, re-entry) and every operation attempted on a locked pool",
 NOUT+"callbacks or the lock.",
 [L],[("unlocked flag",S+'pool.rs'),("M0/M1/IIA balance checks",L)],
 ["results of operations on locked pools and with hostile callback programs"])
p("C20","Oracle accumulators equal the true time integrals",
 "At any moment, the latest stored observation carried forward to the present equals the sum over the pool's life of tick times seconds, and of seconds per unit of active liquidity. Every stored observation equals those sums at its own timestamp, using the tick and liquidity that were actually in force during each interval.",
 ["histories","schedules"],"every history of swaps and liquidity changes with any spacing in time, any cardinality and observation slot changes",
 "The oracle has no stable test at all.",
 [L,S+'oracle.rs'],[("ObservationState::transform/update",S+'oracle.rs'),("oracle writes",L+" swap/_modify_position")],
 ["observation accounts, pool account, clock"])
p("C21","Oracle slots are filled in order and history is kept",
 "A new observation goes to the slot after the latest one, wrapping at the number of created slots, when its time falls in a later 14-second interval than the latest observation's, and otherwise updates the latest slot in place. The pool always points to its latest observation, counts its initialized and created slots exactly, slots are never lost and each lies at the one address its pool and number determine, and the kept observations are in time order. Intervals and order are those of the 32-bit clock; where it wraps (in 2106), the latest slot is updated in place.",
 ["histories","schedules"],"every history of oracle writes and growth with any clock steps",
 "The oracle has no stable test at all.",
 [L,S+'oracle.rs',S+'pool.rs'],[("next_observation_index",S+'pool.rs'),("update cardinality rule",S+'oracle.rs'),("increase_observation_cardinality_next",L)],
 ["observation accounts and the pool's index and cardinality fields"])
p("C22","Range snapshots measure time and activity inside a range",
 "For a tick range that stays bounded by active positions, the change between two snapshots of seconds inside, tick-seconds inside and seconds per liquidity inside equals what actually happened while the price was in the range. Time spent outside the range contributes nothing. A tick that comes into use counts all time, activity and fees up to that moment as below it.",
 ["histories","schedules"],"every history of crossings in both directions, ticks initialized above and below the price, and clock steps",
 "README says these parts are left out of the tests; snapshot_cumulatives_inside has none.",
 [S+'pool.rs',S+'tick.rs',L],[("snapshot_cumulatives_inside",S+'pool.rs'),("TickState::cross and update",S+'tick.rs')],
 ["snapshot computed by the library from tick, pool and observation accounts at two times"])
p("C23","Pool and fee configuration is valid, unique and immutable",
 "A pool exists at most once per ordered token pair and enabled fee tier, starts at a price within the supported range, unlocked and empty, and its tokens, fee and tick spacing never change. Fee tiers have a fee below 100% and a spacing from 1 to 16383 and never change once enabled, and the protocol share denominator stays within 2 to 10.",
 ["configurations","histories"],"every creation attempt (token order, fee account, price, repeated) and every later history",
 NOUT+"creation.",
 [L,C],[("init constraints",C),("bounds asserts",L)],
 ["factory, fee and pool accounts after creation and after every transaction"])
p("C24","Tick, bitmap and position accounts are created and closed safely",
 "Tick accounts can be created only for ticks in range that are multiples of the spacing, bitmap accounts only for words in range, position accounts only empty and with lower below upper, each once, at the address their key determines and with their key recorded. A tick account can be closed only when no liquidity uses it, its rent goes to the named recipient, and it can be created again afterwards.",
 ["configurations","histories"],"every tick, word and spacing including boundaries and negatives, and every close attempt in a history",
 NOUT+"account creation and closing.",
 [L,C],[("check_tick",L),("is_clear constraint",C)],
 ["created accounts and instruction results"])
p("C25","Emitted events tell the truth",
 "Every successful operation that reports an event emits exactly one such event, whose accounts, ticks, amounts, price, liquidity and settings equal what the transaction actually did. Indexers replaying the events obtain the same balances, liquidity and prices as the chain.",
 H,"every successful operation of any history",
 NOUT+"events.",
 [L,S+'pool.rs',S+'position.rs',S+'tokenized_position.rs',S+'factory.rs'],[("emit!",L)],
 ["program log data against balances and accounts"])
p("C26","Tick and price conversions are exact inverses",
 "Every tick in range maps to the square root of 1.0001^tick to within the precision of its 64-bit factors and one unit of 2^-32, strictly increasing with the tick; every price in range maps to the greatest tick whose price does not exceed it. Anything outside the supported range is rejected.",
 ["inputs"],"all 443637 ticks, both neighbours of every tick price, and prices across the whole 48-bit range",
 "Tests sample some twenty ticks and prices.",
 [M+'tick_math.rs'],[("get_sqrt_ratio_at_tick",M+'tick_math.rs'),("get_tick_at_sqrt_ratio",M+'tick_math.rs')],
 ["return values of both conversions"])
p("C27","Price-step math is exact and rounds for the pool",
 "Within one range, amounts for a price move, the price reached for an amount, fees, and multiply-divide with floor or ceiling equal the exact rational results rounded in the documented direction, for every input whose result is representable (where amount times price exceeds 64 bits, the documented overflow-safe form may stop the price short of the exact one, never past it). A step never passes its target, never exceeds the remaining amount and takes the full fee; unrepresentable results are refused rather than wrapped.",
 ["inputs"],"all 64-bit operands, including values near the extremes where intermediate products overflow",
 "Tests sample a few dozen values and quickcheck only the mul_div wrappers.",
 [M+'sqrt_price_math.rs',M+'swap_math.rs',M+'full_math.rs',M+'unsafe_math.rs',M+'liquidity_math.rs'],
 [("mul_div",M+'full_math.rs'),("get_next_sqrt_price_*",M+'sqrt_price_math.rs'),("compute_swap_step",M+'swap_math.rs')],
 ["return values against arbitrary-precision arithmetic"])
p("C28","Bitmap search finds the nearest initialized tick",
 "For any set of initialized ticks in a word, any start bit and either direction, the search returns the nearest initialized bit at or beyond the start in that direction, or the end of the word marked as uninitialized. Flipping a bit changes only that bit, and every tick, negative ones included, has its own bit.",
 ["inputs"],"all 256 start bits, both directions, dense, sparse, empty and full words, all compressed ticks in range",
 "Tests sample a few words.",
 [S+'tick_bitmap.rs',M+'bit_math.rs'],[("next_initialized_bit, flip_bit, position",S+'tick_bitmap.rs'),("most/least_significant_bit",M+'bit_math.rs')],
 ["return values against a naive scan"])
p("C29","Liquidity and amount conversions never overstate",
 "The liquidity computed for given token amounts never needs more than those amounts at the given price and is the largest such liquidity to within rounding, using token 0 only below the range, token 1 only above it and both inside it. Amounts computed for a liquidity equal the exact curve amounts rounded down.",
 ["inputs"],"all prices and ranges on and off tick boundaries and all 64-bit amounts",
 "Tests sample about ten values.",
 [M+'liquidity_amounts.rs'],[("get_liquidity_for_amounts, get_amounts_for_liquidity",M+'liquidity_amounts.rs')],
 ["return values against arbitrary-precision arithmetic"])
p("C30","Only swaps move the price, and users' claims are independent",
 "No operation other than a swap changes a pool's price or tick. Adding, removing, poking or collecting by one user, growing the oracle, creating or closing accounts and administration leave every other user's liquidity, credited tokens and accrued fees exactly as they were, and no operation on one pool affects another pool.",
 H,"every non-swap operation in every history",
 NOUT+"interference between users.",
 [L],[("per-position accounts",L)],["all pool and position accounts around every transaction"])
p("C31","Round trips are never profitable",
 "Depositing liquidity and removing it again with nothing in between never returns more of either token than was paid in. Swapping and swapping the proceeds back with nothing in between never returns more than was spent, for any split of the trade into pieces.",
 H,"every pool state, size, range and price limit, repeated and split arbitrarily",
 NOUT+"sequences of operations.",
 [L,M+'sqrt_price_math.rs'],[("rounding directions",M+'sqrt_price_math.rs')],
 ["attacker balances before and after"])
p("C32","Valid operations are always available",
 "An operation that meets its documented preconditions succeeds in every reachable state: nobody's earlier use of the pool, ordinary or hostile, can leave it locked, unable to trade in either direction within its liquidity, or unable to accept deposits, withdrawals, collections and oracle growth.",
 H,"every reachable state of random and hostile histories and every applicable operation, with amounts in the range the pool can represent",
 NOUT+"which states are reachable.",
 [L],[("lock release",L),("account walking in swap",L)],["instruction results against the reference model's prediction"])
p("C33","Hostile instructions and accounts are handled safely",
 "No instruction bytes, account list or account contents, however malformed, make the program access memory out of bounds or otherwise behave undefinedly. A malformed or unauthorized instruction fails or has no effect on anyone but its signers, and never takes or freezes other users' tokens, positions or pools.",
 ["inputs","fault_sequences"],"mutated instruction data, truncated and padded accounts, duplicated and reordered accounts, missing signer or writable flags, random account contents",
 NOUT+"malformed input.",
 [L,C],[("Anchor deserialization and constraints",C),("handler validation",L)],
 ["AddressSanitizer and runtime-rule monitors around the program entrypoint","all accounts not owned by the signers"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
for x in P:
    assert len(x['title'])<=80,x['id']
    assert x['statement'].count('. ')<=2,(x['id'],x['statement'].count('. '))
print(len(P))
