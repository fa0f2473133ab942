prop('C16','A swap stays inside its price limit and never passes a tick it did not cross',
 'A swap needs a non-zero amount and a price limit on the side the price moves to, strictly inside the protocol\'s price range. It advances only while some amount remains and the limit is not reached; each step aims at the next tick\'s price or the limit, whichever is nearer; and the pool\'s price after the swap is where the last step ended.',
 H,'every price, limit, amount and tick layout',WHY%'the swap loop',
 [L,LB+'swap_math.rs'],[('limit checks and loop condition of swap',L)],level_note='Entry facts, loop-head facts and the loop\'s step function are compared with the specified ones.')
prop('C20','Crossing a tick applies its net liquidity and mirrors its outside values',
 'A swap looks for the next used tick in the bitmap word of the current tick in its direction, falling back to the word border. When the price reaches a used tick, that tick is crossed exactly once: the active liquidity changes by its net liquidity (negated when the price falls), and its outside fee growth, seconds-per-liquidity, tick-cumulative and seconds values become the current values minus themselves; the tick moves to the crossed tick (one below when the price falls). Otherwise liquidity stays and the tick follows the price. No other tick changes.',
 H,'every tick layout, direction, amount and oracle state',WHY%'crossing ticks inside a swap',
 [L,ST+'tick.rs',ST+'tick_bitmap.rs',ST+'oracle.rs'],[('swap loop',L),('TickState::cross',ST+'tick.rs'),('next_initialized_bit',ST+'tick_bitmap.rs')],level_note='The loop\'s step function is compared with the specified one; loop invariants are checked at entry and step.')
prop('C23','Swap fees split exactly between the protocol and the liquidity providers',
 'In every swap step the fee taken at the pool\'s rate is split: one part in the configured share (none when the share is zero) is added to the protocol\'s accrued fees of the input token, and the rest raises that token\'s global fee growth by rest times 2^32 over the active liquidity (unchanged when there is none). Fee growth and protocol fees of the output token stay, and nothing else raises either.',
 H,'every amount, fee share, liquidity and number of steps',WHY%'fee accounting inside a swap',
 [L,ST+'pool.rs'],[('protocol fee and fee growth in swap',L)],level_note='Step function and final pool state compared as terms; who-may-write analysis for the accrued fees.')
prop('C24','A swap\'s settled amounts are the sums of its steps',
 'With an exact input the amount still to do falls in each step by the amount taken plus its fee and the output accumulates; with an exact output the amount still to do falls by the amount paid and the input with its fee accumulates, without wrapping. The amounts settled with the payer and reported in the swap event are the totals of the two tokens, positive for what the pool receives, with the right token on each side, and the swap leaves the pool\'s tokens, fee, spacing and bump as they were.',
 H,'every amount, direction and number of steps',WHY%'accumulation over steps',
 [L],[('amount_specified_remaining, amount_calculated in swap',L)],level_note='Step function, settled amounts and event compared as terms.')
prop('C26','Every change of state is reported by its event',
 'Each instruction that changes the owner, fee tiers, protocol fee, pool set-up, observation capacity, liquidity, amounts owed or a pool\'s price emits its event exactly once when the change happens and not otherwise (a swap route emits one per hop), and the event\'s fields are the real values: the accounts involved, the liquidity added or removed, the amounts due, paid or settled, and the price, tick and liquidity after a swap.',
 H,'every input of every instruction',WHY%'what events report',
 ['programs/core/src/lib.rs'],[('emit!',L)],level_note='The reported fields and the condition of each emission are compared with the specified terms.')
prop('C27','Records are created at their derived address, once, with room and owner right',
 'Each state record (factory, fee tier, pool, observation slot, tick, bitmap word, position, tokenized position) is created only by its own instruction, at the program-derived address of its identifying values, with exactly the space of discriminator and record, owned by the program; the bump recorded is the one of that address and never changes afterwards.',
 H,'every input of every instruction',WHY%'which address a record may be created at',
 ['programs/core/src/context.rs','programs/core/src/lib.rs'],[('init account constraints','programs/core/src/context.rs')],level_note='Derived-address facts and the arguments of the account-creating calls are compared with the specified ones.')
prop('C33','The program lends its signature only to the calls that need it',
 'The program calls out only to the token programs (transfer, mint, mint set-up, authority change, associated account creation), the system program when creating a record, the genuine metadata program, and the payment callback. A pool\'s address signs nothing but transfers, the configuration\'s address nothing but position-token minting, authority removal and metadata, a record\'s address only its own creation; a callback gets no signature. Rent and unsigned transfers are authorised by a signer of the transaction; the position manager and router use this program\'s own callback.',
 H,'every external call of every instruction',WHY%'which calls carry a program signature',
 [L,'programs/core/src/context.rs'],[('CPI and invoke sites',L)],level_note='All external call sites reachable from the handlers are enumerated; seeds, targets and authorities compared as terms.')
prop('C34','A position token is a unique, indivisible token of one recorded position',
 'Creating a tokenized position sets up a new mint without decimals or freeze authority and mints exactly one token, once, into the recipient\'s associated account; the position record names that mint. No other instruction mints, burns, freezes or delegates position tokens. Adding metadata works only for the mint of a genuine position record, names the program as authority, and removes the minting authority for good.',
 H,'every input of every instruction',WHY%'how position tokens are minted',
 [L,'programs/core/src/context.rs'],[('mint_to and set_authority',L),('nft_mint init constraints','programs/core/src/context.rs')],level_note='Call arguments and records compared as terms; who-may-call analysis over all handlers.')
prop('C35','Observation capacity grows by exactly the prepared slots',
 'Growing the oracle creates one slot account per bump given, numbered consecutively from the old capacity, marked as prepared and otherwise empty; the pool\'s next capacity grows by exactly that number without wrapping and nothing else of the pool changes. No other instruction raises the capacity, and the ring length is raised only to it.',
 H,'every capacity and number of slots',WHY%'growing the oracle',
 [L,ST+'oracle.rs',ST+'pool.rs'],[('increase_observation_cardinality_next',L)],level_note='Loop invariant (counter, index) checked at entry and step; final state compared as terms.')
prop('C38','Router swaps spend the given input and chain hop outputs into hop inputs',
 'A router swap runs the pool\'s own swap code as an exact-input swap for the signer. A single swap uses the whole given amount between the named accounts and the given price limit; without a limit, and in every hop of a route, it may run to the end of the price range but not beyond. A route makes as many hops as listed, starting with the first listed pool, the given amount and the named input account; each next hop swaps what the hop before paid out, taking it from the account that received it.',
 H,'every route, amount and number of hops',WHY%'chaining the hops of a route',
 [L],[('exact_input, exact_input_internal',L)],level_note='Loop-carried values (amount, account, list position) checked at entry and step.')
prop('C39','A position token\'s record tracks exactly the liquidity added through it',
 'Only creating, increasing or decreasing a tokenized position changes the liquidity recorded for it, by exactly the amount the program\'s own pool position changes, and never below zero: no more is removed than the token holds. The pool, range and mint a token stands for are fixed at its creation, when nothing is owed yet and fee growth starts from the pool position\'s.',
 H,'every amount and history of changes',WHY%'the liquidity record of a position token',
 [L,ST+'tokenized_position.rs'],[('TokenizedPositionState updates',L)],level_note='Final state compared as terms; who-may-write analysis over all handlers.')
prop('C41','The built-in callbacks pay exactly what is asked, payer to vault',
 'The program\'s own mint callback pays each amount owed in full, whenever it is not zero, and its swap callback pays the positive delta of the input token; given the account list sent with a request, payment goes from the payer\'s account of that token into the pool\'s vault of that token (the input vault for swaps), authorised by the payer, and a callback does nothing else.',
 H,'every request made by an instruction',WHY%'a payment callback',
 [L,'programs/core/src/context.rs'],[('mint_callback, swap_callback',L)],level_note='The account list of each request is matched by position with the callback\'s accounts; transfers compared as terms.')
LIBWHY='Unit tests sample a few arguments of %s; the guarantee is for all of them, and a wrong rounding or bound shows only at unusual values.'
prop('C22','Range snapshots equal the growth inside the range',
 'The snapshot of cumulatives inside a tick range (tick time, seconds per liquidity, seconds) equals the growth that happened while the price was inside it: the difference of the ticks\' outside values below or above the range, and inside it the current cumulative minus both. The current cumulatives extend the latest observation by the time passed since, with the pool\'s tick and active liquidity. All differences wrap.',
 H,'every tick range, pool state, observation and clock',LIBWHY%'the snapshot function',
 [ST+'pool.rs',ST+'oracle.rs',ST+'tick.rs'],[('PoolState::snapshot_cumulatives_inside',ST+'pool.rs'),('ObservationState::observe_latest',ST+'oracle.rs')],level_note='The returned record is compared with the reference as terms on every path.')
prop('C28','Records are trusted only when the program owns them and marked them',
 'A state record (factory, fee tier, pool, observation, tick, bitmap word, position, tokenized position) is read only from an account owned by this program whose first eight bytes are the mark of that record type, so no account supplied by a caller can pass for a record, nor one record type for another. Records are first written only in accounts created by the same instruction and are changed only through a loader that made these checks.',
 H,'every account list given to any instruction',WHY%'which accounts are accepted as records',
 [L,AC],[('account loaders',AC)],level_note='Every load and store site of every handler is enumerated; owner and type-mark facts must hold on the path to it.')
prop('C29','Lamports move only as rent, paid by a signer or refunded once',
 'The program moves lamports only as rent. A new account is funded by a signer of the transaction with exactly the rent minimum of its size, or what an already funded address still lacks of it. The balance of a closed tick account goes to the named recipient, which is another account. No instruction touches the lamports of any other account.',
 H,'every input of every instruction',WHY%'where lamports go',
 [L,AC],[('account creation and close constraints',AC)],level_note='All account-creating calls, lamport accesses and closes reachable from the handlers are enumerated.')
prop('C30','A swap step rounds in the pool\'s favour and never exceeds amount or target',
 'One step of a swap moves the price to its target if the amount, less the fee for an exact input, suffices, and otherwise to the price the amount reaches. The amount in is rounded up, the amount out down and capped at the requested output; the fee is the whole rest of an exact input that does not reach the target, else the amount in times fee/(1000000-fee) rounded up. The price reached by an amount of token_0 is rounded up, by one of token_1 down, and impossible moves (zero price or liquidity, more than the reserve, beyond 64 bits) are rejected.',
 H,'every price, target, liquidity, amount and fee',LIBWHY%'the step functions',
 [LB+'swap_math.rs',LB+'sqrt_price_math.rs'],[('compute_swap_step',LB+'swap_math.rs'),('get_next_sqrt_price_from_input, _output',LB+'sqrt_price_math.rs')],level_note='Returned terms compared with reference formulas; rejections proved on every returning path.')
prop('C31','Amounts and liquidity convert in the pool\'s favour',
 'The token_0 amount of a liquidity over a price range is liquidity times 2^32 times the price difference over both prices, the token_1 amount liquidity times the difference over 2^32; both are the same whichever price comes first, rounded up where the pool is paid and down where it pays. The liquidity bought by given amounts is the greatest by the same formulas, rounded down, taking the smaller of both tokens inside the range. Adding a signed change to a liquidity is rejected when it leaves the 64-bit range.',
 H,'every price range, liquidity, amount and sign',LIBWHY%'the conversions',
 [LB+'sqrt_price_math.rs',LB+'liquidity_amounts.rs',LB+'liquidity_math.rs'],[('get_amount_0_delta_unsigned, get_amount_1_delta_unsigned',LB+'sqrt_price_math.rs'),('get_liquidity_for_amounts',LB+'liquidity_amounts.rs'),('add_delta',LB+'liquidity_math.rs')],level_note='Returned terms compared with reference formulas for arbitrary arguments.')
prop('C32','Full-precision products, rounded quotients and bit searches are exact',
 'Multiplying and dividing forms the product in double width, divides it rounding down or up as named, gives a result only when it fits the type and none otherwise, and rejects a zero divisor. Dividing rounding up adds one exactly when a remainder is left. The most and least significant bit searches give the index of the highest and lowest set bit, and reject or report zero.',
 H,'every argument of the helpers, 64 and 128 bits wide',LIBWHY%'the arithmetic helpers',
 [LB+'full_math.rs',LB+'unsafe_math.rs',LB+'bit_math.rs'],[('mul_div_floor, mul_div_ceil',LB+'full_math.rs'),('div_rounding_up',LB+'unsafe_math.rs'),('most_significant_bit, least_significant_bit',LB+'bit_math.rs')],level_note='Returned terms compared with reference formulas for arbitrary arguments.')
prop('C36','Ticks and prices convert consistently over the whole range',
 'The price of a tick is defined exactly from the lowest to the highest tick and rejected outside; it approximates the square root of 1.0001 to the tick within rounding and rises strictly with the tick, reaching the protocol\'s price bounds at both ends. The tick of a price is defined exactly inside those bounds and is the greatest tick whose price does not exceed it, for every price.',
 H,'every tick and every price','The tests compare a few ticks and prices with float arithmetic; the guarantee covers all 443,273 ticks and 2^64 prices.',
 [LB+'tick_math.rs'],[('get_sqrt_ratio_at_tick, get_tick_at_sqrt_ratio',LB+'tick_math.rs')],level_note='Constants are extracted from the code and an interval error bound over all ticks and prices is derived from them; no execution.')
prop('C43','Instructions refuse only for the stated reasons',
 'An instruction that changes a pool, a position or the configuration fails only for a stated reason: a required signer is missing, an account has a wrong address, owner or type, the pool is locked, the deadline has passed, an amount is zero where one is needed or beyond its type, a tick, bitmap word, spacing, fee, fee share or price limit lies outside its range, a slippage bound is missed, a payment did not arrive in full, more is withdrawn than is held, a called program fails, or a stored sum would overflow. Nothing beyond these makes it fail: in particular every value that lies within those ranges, their ends included, is accepted. (Refusals inside the walk of a swap from tick to tick are not part of this.)',
 H,'every input, set of accounts and prior state','The unit tests never run an instruction, so a check that refuses a legitimate request would go unnoticed until users are locked out.',
 [L,C,AC,ST+'pool.rs',ST+'tick.rs'],[('account constraints',C),('argument checks of the handlers',L),('check_ticks and the authority check',AC)],
 level_note='Every condition on the path to success of every handler must follow from what the other rules demand and an explicit list of further reasons; loop bodies are not covered.')
HW='Depends on whole histories of instructions by many users; tests replay a handful.'
prop('C37','The vaults always cover everything owed to positions and the protocol',
 'At any time the balances of a pool\'s vaults are at least the sum of all tokens owed to positions, all fees accrued to the protocol, and all amounts that burning every position\'s liquidity at the current price would pay out.',
 H,'every history of instructions on a pool',HW,[L],[('vault accounting across handlers',L)])
prop('C40','Liquidity can always be withdrawn and collected',
 'From every reachable state the owner of a position can remove its liquidity and collect the tokens owed to it in a transaction of bounded size and compute budget.',
 H,'every reachable state of a pool',HW,[L],[('burn, collect',L)])
prop('C42','Time-weighted observations resist manipulation within one block',
 'No sequence of transactions inside one slot changes the time-weighted price or liquidity read over a longer window by more than the weight of that slot.',
 H,'every sequence of transactions inside one slot',HW,[ST+'oracle.rs'],[('ObservationState',ST+'oracle.rs')])
