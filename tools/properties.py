L = "programs/core/src/libraries/"
S = "programs/core/src/states/"
X = "programs/core/src/"
TB = "All obligations are discharged for all inputs against the MIR rustc produces from /repo; trusted: that lowering, the executor and its models of the uint crate and of core, and z3/cvc5. "

p("C01", "Exact wide multiply-divide",
  "Scaled multiplication (multiply two numbers, divide by a third) on 64-bit and on 128-bit operands returns exactly the floor (or the ceiling, in the rounding-up form) of the real quotient whatever the size of the intermediate product, and returns nothing exactly when that result does not fit the operand type. Rounding-up division returns the exact ceiling. A zero divisor aborts.",
  ["inputs"], "every triple of 64-bit and of 128-bit operands", "quickcheck samples a few hundred small triples; carry, full-width products and the rounded-up maximum are not reached",
  [L + "full_math.rs", L + "unsafe_math.rs", L + "big_num.rs"], [("mul_div_floor / mul_div_ceil", L + "full_math.rs"), ("div_rounding_up", L + "unsafe_math.rs")],
  note=TB + "Six functions under contract.", observe=["return value"])

p("C04", "Next price rounds in the pool's favour",
  "The price reached after a given token amount enters or leaves the pool is the exact constant-liquidity price, rounded up when token_0 moves and rounded down when token_1 moves, so the price never moves in the wrong direction nor further than the amount allows. When the product needed for full precision does not fit, the documented less precise formula (which never undershoots the exact price for added token_0) is used. Requests that would empty the pool or leave the price range abort.",
  ["inputs"], "every price, liquidity, amount and direction", "the tests pin a few dozen round numbers; they cannot show the rounding direction for all operands",
  [L + "sqrt_price_math.rs"], [("get_next_sqrt_price_from_amount_0_rounding_up", L + "sqrt_price_math.rs"), ("get_next_sqrt_price_from_amount_1_rounding_down", L + "sqrt_price_math.rs"), ("get_next_sqrt_price_from_input / _output", L + "sqrt_price_math.rs")],
  note=TB + "Next-price functions and the arithmetic they call.", observe=["return value"])

p("C05", "Token amounts between two prices are exact",
  "The amount of token_0 (token_1) held by a liquidity amount between two prices is the exact mathematical amount, rounded up when the caller asks for what must be paid in and down when asked for what is paid out, independent of the order of the two prices. Adding liquidity uses the rounded-up amounts and removing it the rounded-down amounts with negative sign. Amounts that do not fit 64 bits abort instead of wrapping.",
  ["inputs"], "every pair of prices, liquidity and rounding direction", "tests use a handful of values; rounding and overflow boundaries are not covered",
  [L + "sqrt_price_math.rs"], [("get_amount_0_delta_unsigned / signed", L + "sqrt_price_math.rs"), ("get_amount_1_delta_unsigned / signed", L + "sqrt_price_math.rs")],
  note=TB + "Amount functions and the arithmetic they call. The signed forms reinterpret amounts of 2^63 or more as the code does.", observe=["return value"])

p("C06", "A swap step never overcharges, overpays or overshoots",
  "One swap step moves the price towards the target and never past it, stops at the target exactly when enough remains, charges the rounded-up input and pays at most the rounded-down output for the price move actually made. For exact input, input plus fee never exceeds what remains and uses all of it unless the target is reached; for exact output, the output never exceeds what was asked. The fee is at least the pool's fee rate on the input, rounded up, when the target is reached or the output is exact.",
  ["inputs"], "every current price, target, liquidity, remaining amount (both signs) and fee below 100%", "unit tests pin about a dozen steps; the guarantee is over five 64-bit inputs with nested rounding",
  [L + "swap_math.rs", L + "sqrt_price_math.rs", L + "full_math.rs"], [("compute_swap_step", L + "swap_math.rs")],
  note=TB + "compute_swap_step and everything it calls; requires fee < 1e6 and positive prices, which the instruction-level checks establish for callers.", observe=["returned step: next price, amount in, amount out, fee"])

p("C07", "Liquidity bought never costs more than the desired amounts",
  "The liquidity computed from desired token amounts and a price range is such that minting it takes at most the desired amount of each token, wherever the current price lies relative to the range and whatever the order of the range ends. It is the documented formula: token_0 only below the range, token_1 only above, the smaller of the two inside.",
  ["inputs"], "every current price, range and pair of desired amounts", "tests cover a dozen fixed vectors; the inequality involves three nested roundings",
  [L + "liquidity_amounts.rs", L + "sqrt_price_math.rs"], [("get_liquidity_for_amounts and its two halves", L + "liquidity_amounts.rs")],
  note=TB + "Liquidity functions, the amount functions and the arithmetic they call.", observe=["return value"])

p("C08", "Removing liquidity never pays more than adding it cost",
  "At unchanged prices the amounts paid when liquidity is removed, in one go or in parts, never exceed the amounts taken when it was added, for either token. The amounts quoted for a liquidity amount are the rounded-down ones.",
  ["inputs", "histories"], "every price range and every way of splitting a liquidity amount into additions and removals", "tests never compare the two directions over all splits",
  [L + "sqrt_price_math.rs", L + "liquidity_amounts.rs"], [("signed amount deltas", L + "sqrt_price_math.rs"), ("get_amounts_for_liquidity", L + "liquidity_amounts.rs")],
  note=TB + "Lemmas (round trip, super/subadditivity) over the proved contracts.", observe=["return value"])

p("C09", "Tick liquidity bookkeeping",
  "Updating a tick adds the liquidity change to its gross liquidity and adds it to (lower bound) or subtracts it from (upper bound) its net liquidity, fails without effect when gross would leave the 64-bit range, and reports a flip exactly when gross changes between zero and nonzero. When the first liquidity arrives and the tick is at or below the current tick, the outside accumulators are set to the global values; otherwise they are kept. Clearing resets all accumulators, and a tick counts as clear exactly when all of them are zero.",
  ["inputs"], "every tick state, liquidity change and set of accumulators", "tests set one or two fields at a time",
  [S + "tick.rs", L + "liquidity_math.rs"], [("TickState::update / clear / is_clear", S + "tick.rs"), ("add_delta", L + "liquidity_math.rs")],
  note=TB + "Tick state methods and add_delta; frame (untouched fields) included.", observe=["tick account fields", "return value"])

p("C10", "Tick bitmap marks and finds exactly the initialized ticks",
  "Flipping a bit changes that bit of the 256-bit word and nothing else. The search for the next initialized bit returns the nearest set bit at or below (or at or above) the start, never skips one, and reports none exactly when there is none. Splitting a tick into word and bit position is invertible.",
  ["inputs"], "every 256-bit word, bit position and direction", "2^256 words; the tests try a dozen",
  [S + "tick_bitmap.rs", L + "bit_math.rs"], [("flip_bit / next_initialized_bit / position", S + "tick_bitmap.rs"), ("most/least_significant_bit", L + "bit_math.rs")],
  note=TB + "Proved over 256-bit vectors.", observe=["return value", "bitmap account word"])

p("C11", "Fee growth inside a range",
  "The fee growth inside a range is global growth minus the growth below and above it (modulo 2^64) with the sides decided by the current tick; crossing a bound flips its outside value so that the growth inside is unchanged by the crossing. Fees paid while the price is inside the range accrue inside in full, fees paid while it is outside do not accrue inside at all.",
  ["inputs", "histories"], "every pair of ticks, current tick and accumulator values", "tests check a few literal values, no crossing sequences",
  [S + "tick.rs"], [("get_fee_growth_inside", S + "tick.rs"), ("TickState::cross", S + "tick.rs")],
  note=TB + "Both functions exact; crossing and accrual lemmas proved over the contracts.", observe=["return value", "tick account fields"])

p("C12", "Position fee crediting",
  "Updating a position credits it floor(liquidity before the update times growth since the last update / 2^32) of each token, records the new growth, changes its liquidity by exactly the requested delta and nothing else. Updating an empty position with zero delta, or leaving the 64-bit liquidity range, fails without effect.",
  ["inputs"], "every position state, liquidity delta and pair of growth values", "tests check four literal cases",
  [S + "position.rs", L + "full_math.rs"], [("PositionState::update", S + "position.rs")],
  note=TB + "Exact contract of the update and of the arithmetic it calls.", observe=["position account fields"])

p("C19", "Price oracle records",
  "Advancing an observation adds elapsed seconds times tick to the tick accumulator and elapsed seconds divided by liquidity to the seconds-per-liquidity accumulator, in 32/64-bit modular arithmetic, and stamps it with the new time. A slot is written at most once per second, the ring grows only when the last slot is written, and a query at the current time extrapolates from the latest record exactly as a write would.",
  ["inputs", "histories"], "every observation, timestamp, tick, liquidity and ring size", "tests try a few timestamps",
  [S + "oracle.rs", S + "pool.rs"], [("ObservationState::transform / update / observe_latest", S + "oracle.rs"), ("next_observation_index", S + "pool.rs")],
  note=TB + "Exact contracts of the observation methods.", observe=["observation account fields", "return value"])

p("C02", "Tick and price are a strictly monotone, exact inverse pair",
  "The price of a tick is strictly increasing over the ticks -221818 to 221818, whose ends have the documented minimum and maximum price, and every other tick is rejected. The tick of a price is the greatest tick whose price does not exceed it, for every price from the minimum up to but excluding the maximum; every other price is rejected.",
  ["inputs"], "every 32-bit tick and every 64-bit price", "2^48 prices; the tests compare a few ticks against a floating-point formula",
  [L + "tick_math.rs"], [("get_sqrt_ratio_at_tick", L + "tick_math.rs"), ("get_tick_at_sqrt_ratio", L + "tick_math.rs")],
  note="Decided by complete enumeration of the extracted functions: all 443637 ticks point by point, all prices by intervals on which the function provably takes one path to one tick (the callee used through its contract, the price table). Also compared with the compiled function on every tick. Trusted: MIR lowering, executor, the interval evaluator generated to C, clang.", observe=["return value"])

p("C03", "Tick prices are accurate",
  "The price of every tick t in the domain differs from sqrt(1.0001^t) in Q32.32 by at most one unit in the last place plus a relative error of 5e-12.",
  ["inputs"], "every tick of the domain", "tests allow far larger errors and look at a few ticks only",
  [L + "tick_math.rs"], [("get_sqrt_ratio_at_tick", L + "tick_math.rs")],
  note="Complete enumeration of the extracted function over the finite tick domain against 60-digit arithmetic. Trusted as for C02.", observe=["return value"])

IX = TB + "Instructions are executed from their generated entry points (account validation included); solana, anchor and spl calls through the models in vc/anchor.py; distinct account slots hold distinct accounts. "
LIB = X + "lib.rs"

p("C13", "Tokens leave the vaults only as owed",
  "Tokens leave a pool's vaults only as the payout of a collection (at most the amount requested and at most what the position or the protocol is owed, whose record decreases by exactly what is paid) or as the output of a swap; every payout is signed by the pool, comes from the pool's own vault and goes to the account named for it. Minting demands from the payer the rounded-up token amounts of the liquidity and fails unless both vaults received them; burning credits the position the rounded-down amounts and moves no tokens. The program's own payment callbacks move exactly what is asked from the payer to the vault, and no other instruction moves pool tokens.",
  ["inputs", "histories"], "every pool, position, tick and token account state and every argument", "the repository has no instruction-level test at all; the unit tests stop at the library functions",
  [LIB, X + "context.rs", S + "position.rs"], [("mint / burn / collect / collect_protocol / collect_from_tokenized / swap and callbacks", LIB)],
  note=IX + "Foreign callback programs may do anything to accounts except sign for the pool.", observe=["token transfers", "tokens owed in positions", "protocol fees of pools"])

p("C14", "A pool is locked while it is being worked on",
  "Every instruction that changes a pool's position, price, fee or oracle accounting in several steps or calls out (mint, burn, swap, collections, growing the oracle ring) succeeds only on an unlocked pool, keeps the pool locked in its stored state while any other program runs, and leaves it unlocked when it succeeds.",
  ["histories", "schedules"], "every callback and nesting of instructions", "no test calls an instruction, let alone re-enters one",
  [LIB], [("lock check, set and reset in every pool instruction", LIB)], note=IX, observe=["pool account field unlocked, also while a callback runs"])

p("C16", "Slippage and deadline limits are enforced",
  "Adding liquidity through a position token takes at most the desired and at least the minimum amount of each token, removing it yields at least the minimum amounts, exact-input swaps deliver at least the minimum output, and each fails after its deadline.",
  ["inputs", "histories"], "every pool state, limit and clock value, whatever a callback did in between", "no instruction-level tests",
  [LIB], [("check_deadline", X + "access_control.rs"), ("add_liquidity, decrease_liquidity, exact_input_single, exact_input", LIB)], note=IX, observe=["instruction result", "token transfers"])

p("C17", "Only the entitled can act",
  "Administration (owner change, protocol share, fee tiers, protocol fee collection) requires the signature of the recorded protocol owner and changes only what it is for; burning and collecting a position requires its owner's signature; decreasing or collecting a position token requires the signature of the holder of exactly that token (or of a delegate approved for it); whoever pays has signed, and payments use the payer's own signature.",
  ["inputs"], "every set of accounts and signers an attacker may pass", "no instruction-level tests; account substitution is an unbounded input space",
  [LIB, X + "context.rs", X + "access_control.rs"], [("account constraints", X + "context.rs"), ("is_authorized_for_token", X + "access_control.rs")], note=IX, observe=["instruction result"])

p("C18", "Position tokens account for exactly their share",
  "A position token's record changes its liquidity by exactly the liquidity added to or removed from the pool for it, only on the pool and range it was opened in, and never below zero; it is credited exactly the fees of its own liquidity since its last update plus the amounts it removed, and debited what it is collected, never more than owed. Opening one mints exactly one token, creates its record once at the mint's address, and giving it metadata gives up the mint authority.",
  ["inputs", "histories"], "every state of the pool, the shared core position and the token's record", "no instruction-level tests; several tokens share one core position, which only histories show",
  [LIB, S + "tokenized_position.rs"], [("mint_tokenized_position / increase_liquidity / decrease_liquidity / collect_from_tokenized / add_metaplex_metadata", LIB)],
  note=IX + "Assumes the record's liquidity is at most the shared core position's, which the proved equal changes preserve.", observe=["tokenized position account fields", "spl mint and authority calls"])

p("C20", "Active liquidity, ticks and bitmap stay consistent",
  "When a position's liquidity changes, the gross liquidity of both its ticks changes by the same amount and their net liquidity by plus (lower) and minus (upper) it, the pool's active liquidity changes by it exactly when the current tick is inside the range, exactly the bitmap bits of ticks that become initialized or uninitialized are flipped, emptied ticks are cleared, and no other tick, bitmap or pool changes. A swap changes active liquidity only by the net liquidity of the initialized ticks it crosses, in the direction of the move. Only clear ticks can be closed.",
  ["inputs", "histories"], "every pool, tick and bitmap state, range and liquidity change", "no instruction-level tests",
  [LIB, S + "tick.rs", S + "tick_bitmap.rs"], [("_modify_position / _update_position", LIB), ("swap loop", LIB), ("TickState::update, flip_bit", S + "tick.rs")], note=IX, observe=["pool, tick and bitmap account fields"])

p("C21", "Accounts are created correctly and once",
  "Pools, ticks, bitmap words, positions, fee tiers, the factory and oracle records are created only once, at the address derived from what identifies them, with valid parameters (ordered distinct tokens, fee below 100%, spacing between 1 and 16383, price in range with its tick, ticks in range and on the spacing, non-empty ranges) and clear contents; a new pool satisfies everything the other instructions assume of a pool.",
  ["inputs"], "every argument and every set of accounts", "no instruction-level tests",
  [LIB, X + "context.rs"], [("create_and_init_pool, enable_fee_amount, init_* and increase_observation_cardinality_next", LIB), ("init constraints", X + "context.rs")], note=IX, observe=["created accounts and their addresses"])

p("C22", "The protocol's share of fees",
  "The protocol's share is one over a number between 2 and 10 set by the owner. In every swap step the protocol receives exactly the floor of the step's fee divided by that number, in the input token, the rest accrues to active liquidity as growth per unit rounded down, and nothing accrues elsewhere.",
  ["inputs", "histories"], "every fee amount, share and liquidity in every step of every swap", "no instruction-level tests",
  [LIB, S + "factory.rs"], [("set_fee_protocol", LIB), ("swap fee split", LIB)], note=IX, observe=["pool protocol fees and fee growth"])

p("C23", "Substituted accounts are rejected",
  "Every pool, tick, bitmap, position, observation, vault, factory and fee account an instruction acts on is one of this program's accounts of the right type at the address derived for this pool (and owner, range, word, index), vaults are the pool's own token accounts, and position tokens are genuine token accounts; anything else fails the instruction.",
  ["inputs"], "every account an attacker may pass in every slot", "no instruction-level tests; substitution is an unbounded input space",
  [LIB, X + "context.rs", S + "pool.rs"], [("validate_*_address", S + "pool.rs"), ("account constraints", X + "context.rs")], note=IX, observe=["instruction result"])

p("C24", "Events report what happened",
  "Every successful instruction that changes ownership, fees, pools or positions or moves pool tokens emits exactly one event of its kind, whose fields are the accounts, amounts, liquidity, ticks and prices of what it did.",
  ["inputs"], "every successful instruction", "no instruction-level tests",
  [LIB], [("emit! in every instruction", LIB)], note=IX, observe=["emitted events"])

p("C15", "Swaps respect price, limit and amount",
  "A swap moves the price only in its direction and never past the limit, stops only when the amount is used up or the limit is reached, takes at most the specified input and delivers at most the specified output; each round goes from the current price to the next initialized tick (or word end) or the limit, whichever comes first, at the active liquidity and the pool's fee; inputs, fees and outputs add up exactly over the rounds; afterwards price and tick agree and the pool satisfies everything other instructions assume.",
  ["inputs", "histories"], "every pool, tick and bitmap state, amount, limit, direction and number of rounds", "no instruction-level tests; loops over any number of ticks",
  [LIB, L + "swap_math.rs"], [("swap loop", LIB), ("compute_swap_step", L + "swap_math.rs")],
  note=IX + "Loop invariant and per-round transition contract, any number of rounds.", observe=["pool account", "swap event", "token transfers"])


p("C25", "Snapshots of a price range",
  "A snapshot of a range (tick-seconds, seconds per liquidity, seconds) is the accumulators of the current time, extrapolated from the latest record exactly as a write would, minus both outside values while the price is inside (lower bound inclusive, upper exclusive), and the difference of the outside values otherwise, in the accumulators' modular arithmetic. Crossing a bound leaves it unchanged, time spent inside counts in full and time spent outside does not count.",
  ["inputs", "histories"], "every record, pool and tick values, every order of crossings and times", "no test calls it with the price inside the range and values near the wrap-around",
  [S + "pool.rs", S + "oracle.rs", S + "tick.rs"], [("snapshot_cumulatives_inside", S + "pool.rs"), ("ObservationState::transform", S + "oracle.rs"), ("TickState::cross", S + "tick.rs")],
  observe=["returned snapshot"])
