TECH = "static analysis: whole-program abstract interpretation of rustc MIR (path facts, symbolic terms, storage effects, emitted messages)"
PROPS = []
NA = [
    {"property": "K01", "reason": "Whether a trade rounded to whole units leaves the curve's invariant no lower depends on the exact digits of reserves, amounts and rates; the analysis treats multiplication and division as exact, and no static argument over the program text in reach bounds the accumulated rounding of the iterative solvers."},
    {"property": "K02", "reason": "Convergence of the Newton iterations within their fixed number of steps is a numeric property of reserves and amplification which no dataflow or type argument reaches; the rules take the solvers as given functions of their inputs."},
    {"property": "K03", "reason": "Whether many small actions profit from rounding is a sum over unbounded histories of individual rounding errors; rounding is not modelled, so nothing sound can be said statically."},
    {"property": "K04", "reason": "How close moving averages and interpolated past prices come to true prices is a numeric accuracy question about runtime values; the formulas, over exact numbers, and which values enter them are decided (O01, D06, D16)."},
    {"property": "K05", "reason": "Freedom from overflow for amounts which occur needs bounds on supplies, prices and decimals of third-party tokens, which the source does not contain."},
    {"property": "K06", "reason": "Gas use is decided by the chain's virtual machine and the sizes of stored collections at run time, not by the source."},
]


def P(**k):
    PROPS.append(k)


P(
    id="A01",
    title="Privileged actions succeed only for their authority",
    statement="In every contract, each privileged action (configuration, fees, pool registration and deactivation, reward management, vesting registration, minting, seizing settings, internal callbacks, proxy execution) succeeds only when the sender is the authority for that action: the owner, the pool's or factory's owner, the guardian or controller, the factory, the contract itself, the minter, or a listed admin. Anyone else's call fails and changes nothing. No other state-changing endpoint exists besides the ones users are meant to call.",
    q="every execute message of every contract, every sender, every stored configuration and history",
    why="Tests try one wrong sender on some endpoints; the guarantee is for every endpoint, every path inside it and every stored configuration.",
    files=["contracts/factory/src/contract.rs", "contracts/tokenomics/incentives/src/execute.rs", "contracts/tokenomics/maker/src/contract.rs", "contracts/pair_stable/src/contract.rs", "contracts/pair_concentrated/src/contract.rs", "contracts/pair_xyk_sale_tax/src/contract.rs", "contracts/tokenomics/vesting/src/contract.rs", "contracts/tokenomics/xastro_token/src/contract.rs", "contracts/periphery/fee_granter/src/contract.rs"],
    mech=[("owner comparison at the top of each handler", "contracts/*/src/contract.rs execute handlers"), ("self-only callbacks", "contracts/tokenomics/maker/src/contract.rs swap_bridge_assets, distribute_astro; contracts/router/src/operations.rs")],
    note="Decided on all paths of the compiled entry points (148 message variants): the successful result implies equality of the sender with the stored authority.",
)

P(
    id="A02",
    title="Ownership moves only by a proposal the proposed owner claims in time",
    statement="In every contract with transferable ownership, the owner changes only when the address named in the stored proposal claims it before the proposal expires; only the current owner can make or drop a proposal, and a claim clears it. No other message changes the owner.",
    q="every message of every contract with an owner, every sender, time and stored proposal",
    why="The tests walk one proposal through; they do not show that no other path writes the owner or that an expired or foreign claim always fails.",
    files=["packages/astroport/src/common.rs", "contracts/factory/src/contract.rs", "contracts/tokenomics/incentives/src/execute.rs", "contracts/tokenomics/maker/src/contract.rs", "contracts/periphery/fee_granter/src/contract.rs"],
    mech=[("propose / drop / claim helpers", "packages/astroport/src/common.rs"), ("owner callbacks", "contracts/*/src/contract.rs ClaimOwnership arms")],
    note="All writes of the stored configuration in all entry points are enumerated; the owner field must be unchanged except under the claim conditions.",
)
P(
    id="C01",
    title="ASTRO converters pay one new token for each old token and burn only old ones",
    statement="Each conversion pays exactly the amount of the configured old token that was received, in the configured new token, to the given receiver or the depositor, and accepts no other token. The burn actions send the contract's whole old-token balance to the configured burn address or burn it, and nothing else ever leaves the contract; conversion settings never change.",
    q="every message of both converters, every amount, sender, receiver and configuration",
    why="Tests convert a few amounts; exact one-to-one payout and the absence of any other outflow must hold for all inputs and all endpoints.",
    files=["contracts/periphery/astro_converter/src/contract.rs", "contracts/periphery/astro_converter_neutron/src/contract.rs"],
    mech=[("convert, cw20 receive, burn", "contracts/periphery/astro_converter/src/contract.rs"), ("Neutron transfer", "contracts/periphery/astro_converter_neutron/src/contract.rs")],
    note="Messages of every successful path are reconstructed symbolically and compared with the required ones.",
)
P(
    id="C02",
    title="The converter pair forwards exactly what it received to the converter",
    statement="A swap on the converter pair accepts only the configured source asset, forwards exactly the amount received to the configured converter with the validated recipient or the trader as beneficiary, and changes no state. Quotes are one to one, and the pair can only be set up from a pair which holds both of the converter's assets.",
    q="every message of the converter pair, all assets, amounts and recipients",
    why="Tests cover one token each way; other assets, recipients and amounts are not sampled.",
    files=["contracts/pair_astro_converter/src/contract.rs"],
    mech=[("swap and hook", "contracts/pair_astro_converter/src/contract.rs"), ("set-up by migration", "contracts/pair_astro_converter/src/migration.rs")],
    note="All paths; amounts and addresses compared as normalised terms.",
)
P(
    id="C03",
    title="The xASTRO pair turns a swap into exactly one staking entry or exit",
    statement="A swap on the xASTRO pair hands exactly the coins sent to the staking contract, entering for ASTRO and leaving for xASTRO, for the benefit of the validated recipient or the trader. Any other asset, token hook or liquidity action fails, and set-up requires exactly the staking contract's two denoms.",
    q="every message of the xASTRO pair, all coins, amounts, recipients and set-up parameters",
    why="There are no running tests for this contract.",
    files=["contracts/pair_xastro/src/contract.rs"],
    mech=[("swap", "contracts/pair_xastro/src/contract.rs")],
    note="All paths of the entry points.",
)
P(
    id="C04",
    title="Quotes of the xASTRO pair are what staking would give",
    statement="The xASTRO pair quotes the staking contract's exchange: shares by ASTRO held and xASTRO supplied for a stake, the locked minimum withheld from the first one, and ASTRO by the same rate for an unstake of no more than the supply; reverse quotes are the inverse. There is no spread or commission, and no other asset is quoted. Both converter pairs report no reserves, shares or curve of their own.",
    q="every quote and reverse quote, amount, supply and balance of the staking contract",
    why="Routers and the maker take these quotes for what a swap will return; a rate which differs from staking's makes routed trades fail or lose. The pair has no running tests.",
    files=["contracts/pair_xastro", "contracts/pair_astro_converter"],
    mech=[("quotes", "contracts/pair_xastro/src/queries.rs query_simulation, query_reverse_simulation"), ("other queries", "contracts/pair_xastro/src/queries.rs query; contracts/pair_astro_converter/src/queries.rs query")],
    note="The exchange itself is S01's.",
)
P(
    id="S01",
    title="Staking mints and redeems xASTRO exactly pro rata",
    statement="Entering mints and delivers paid*shares/(balance-paid) rounded down, the first stake locks a minimum of 1000 shares in the contract, and a stake never delivers zero shares. Leaving burns exactly the xASTRO received and pays burned*balance/shares of the ASTRO held. Shares and ASTRO go to the receiver, the named hook contract or the sender, and nothing else is minted, burned or sent.",
    q="every stake and unstake, every balance, supply, amount and recipient",
    why="The staking tests do not run here and could only sample ratios; dilution through a wrong base, rounding up or an additional payout shows only for particular states.",
    files=["contracts/tokenomics/staking/src/contract.rs"],
    mech=[("share computation", "contracts/tokenomics/staking/src/contract.rs execute_enter"), ("redemption", "contracts/tokenomics/staking/src/contract.rs execute_leave")],
    note="Exact equality of normalised arithmetic terms and complete message lists on every path.",
)
P(
    id="S02",
    title="Staking is wired to its own denom and tracker, and its queries to them",
    statement="The xASTRO denom is fixed once, by the reply to the contract's own denom creation, and the tracker by the reply to its own instantiation, which is then hooked to that denom; nothing else changes them. Balance and supply queries answer the bank's current figure, or forward the requested address and time unchanged to the tracker.",
    q="all replies, messages and queries of the staking contract",
    why="Reply handling and historical queries are not covered by tests which run.",
    files=["contracts/tokenomics/staking/src/contract.rs"],
    mech=[("reply handling", "contracts/tokenomics/staking/src/contract.rs reply"), ("queries", "contracts/tokenomics/staking/src/contract.rs query")],
    note="All replies and queries on all paths.",
)
P(
    id="T01",
    title="The balance tracker records every transfer of its denom exactly",
    statement="For each transfer of the tracked denom the tracker records the sender's balance less the amount, the receiver's balance plus the amount and the current supply, at the unit (seconds or height) its queries default to; the module account is not recorded and other denoms are rejected. The non-blocking notification can neither fail nor write, and historical queries read the snapshot of the requested time.",
    q="every hook call and query of the tracker, all accounts, amounts, units and settings",
    why="The tracker has no running tests; a missed or misplaced snapshot only shows in later historical queries.",
    files=["contracts/periphery/tokenfactory_tracker/src/contract.rs", "contracts/periphery/tokenfactory_tracker/src/query.rs"],
    mech=[("send hook", "contracts/periphery/tokenfactory_tracker/src/contract.rs sudo"), ("queries", "contracts/periphery/tokenfactory_tracker/src/query.rs")],
    note="Every snapshot write is enumerated with its height and value terms.",
)
P(
    id="S03",
    title="The xASTRO ledger balances and snapshots every change",
    statement="Every transfer, send, mint and burn changes exactly the accounts it names by exactly its amount, and the supply by the amount minted or burned, each recorded at the current height; the supply never exceeds a mint cap. Spending for another account consumes an unexpired allowance of the spender. The supply a token is created with is the sum of the balances it is created with, and past-balance queries answer for the requested height.",
    q="every message and query of the xASTRO token, all accounts (equal ones too), amounts, heights and allowances",
    why="Equal accounts, repeated addresses, several changes at a height and expiry boundaries are histories the tests do not sample.",
    files=["contracts/tokenomics/xastro_token/src/contract.rs"],
    mech=[("transfers, mint, burn, allowances", "contracts/tokenomics/xastro_token/src/contract.rs"), ("history queries", "contracts/tokenomics/xastro_token/src/state.rs and contract.rs query_balance_at")],
    note="All balance, supply and allowance writes on every path, compared as normalised terms; lost updates between possibly equal accounts are tracked.",
)
P(
    id="V01",
    title="Vesting pays each account what has unlocked and not been released, once",
    statement="A claim changes only the claimer's entry, pays the vesting token to the claimer or the validated recipient, records exactly what it pays, and never pays more than the amounts unlocked by then over all schedules less what was released before. Nothing else changes released amounts or pays tokens out but the owner's withdrawal. The available-amount query answers the same figure a claim would pay at most.",
    q="every message and query of the vesting contract, all schedules, times, amounts and histories",
    why="Schedules, times and claim sequences form an unbounded space; the tests claim at a few chosen instants.",
    files=["contracts/tokenomics/vesting/src/contract.rs"],
    mech=[("claim and unlock formula", "contracts/tokenomics/vesting/src/contract.rs claim, compute_available_amount")],
    note="The unlock formula is compared as a case-split symbolic term; all writes of vesting entries are enumerated.",
)
P(
    id="V02",
    title="Vesting registrations are fully funded and withdrawals take only locked tokens",
    statement="A registration succeeds only when it brings exactly the sum of the registered schedules' final amounts in the vesting token, keeps the account's earlier schedules, and contains only schedules whose times and amounts are ordered. The owner's withdrawal takes a positive amount strictly below what is still locked in the single running schedule, reduces that schedule by it and pays it to the validated receiver.",
    q="every registration and withdrawal, all schedules, accounts and amounts",
    why="Under-funding shows only for particular combinations of accounts and schedules, in a later claim which cannot be paid.",
    files=["contracts/tokenomics/vesting/src/contract.rs"],
    mech=[("registration", "contracts/tokenomics/vesting/src/contract.rs register_vesting_accounts, assert_vesting_schedules"), ("withdrawal", "contracts/tokenomics/vesting/src/contract.rs withdraw_from_active_schedule")],
    note="All paths; accumulated sums compared as symbolic sums over the list.",
)
P(
    id="N01",
    title="Coin registry stores each denom's decimals as named, first come or by the owner",
    statement="Decimals are stored only for the denoms a message names, exactly as given and at most 18. Anyone may register only denoms which have no entry yet and whose coins they sent, and gets exactly these coins back. Entries are removed only by name, nothing else is sent or changed, and the query answers the stored figure.",
    q="every message and query of the native coin registry, all denoms, decimals and coins",
    why="The tests register two denoms; overwriting and refunds depend on combinations of stored entries and coins they do not sample.",
    files=["contracts/periphery/native_coin_registry/src/contract.rs"],
    mech=[("add, register, remove", "contracts/periphery/native_coin_registry/src/contract.rs")],
    note="All writes and messages on every path of the entry points.",
)
P(
    id="F01",
    title="Fee grants are recorded once, funded, and match the chain's allowance",
    statement="A grant is made once per grantee, with a spend limit in the gas denom equal to the recorded amount and, unless the check is bypassed, to the coins sent; a revocation removes the record and the allowance together. Coins leave only by the transfer action, a positive amount of the gas denom to the receiver or the sender. Admins are validated, at most two, and removed when named; the gas denom never changes.",
    q="every message of the fee granter, all grantees, amounts, coins and admin lists",
    why="Tests grant and revoke once; double grants, unfunded grants and admin list edits need particular sequences.",
    files=["contracts/periphery/fee_granter/src/contract.rs"],
    mech=[("grant, revoke, transfer", "contracts/periphery/fee_granter/src/contract.rs"), ("admins", "contracts/periphery/fee_granter/src/contract.rs update_admins")],
    note="All writes and messages on every path of the entry points.",
)
P(
    id="O01",
    title="The oracle averages a pair's cumulative prices over at least one period",
    statement="An update succeeds only a day or more after the last one, stores the pair's current cumulative prices and the time, and averages exactly the price growth of the same ordered asset pair over the elapsed time. A consultation multiplies the amount by the average of the named asset, or asks the pair itself while that average is zero. The pair is the one the factory names for the assets and never changes.",
    q="every update and consultation, all times, prices, assets and amounts",
    why="Matching of asset orders, elapsed time and the period boundary are only sampled by tests.",
    files=["contracts/periphery/oracle/src/contract.rs"],
    mech=[("update", "contracts/periphery/oracle/src/contract.rs update"), ("consult", "contracts/periphery/oracle/src/contract.rs consult")],
    note="Stored and returned values are compared as normalised terms on every path.",
)
P(
    id="W01",
    title="The admin proxy relays for its admins only; a frozen list never changes",
    statement="The proxy sends exactly the messages an admin hands it, each once and in order, and changes nothing itself. Its admins are the validated ones given at instantiation or by the last update; an admin may replace or freeze the list only while it is mutable, and freezing keeps the admins. Nothing else writes to it or sends from it.",
    q="every message, sender, list of admins and past of the proxy",
    why="It owns other contracts and funds: whoever can act through it acts as the treasury. It has no running tests.",
    files=["contracts/whitelist/src/contract.rs"],
    mech=[("proxy", "contracts/whitelist/src/contract.rs execute, execute_freeze, execute_update_admins; cw1_whitelist::contract")],
    note="The cw1-whitelist crate's bodies are analysed along.",
)
P(
    id="R01",
    title="The router executes a chained route in order and enforces the minimum received",
    statement="A route has between one and the maximum number of operations, each but the first offering the asset the one before asks for. The router itself executes them in order, each with its whole balance of the offered asset and the user's spread limit on the pair the factory names, and only the last pays the receiver or the user. The call fails unless the receiver's balance of the final asset grew by at least the given minimum, and quotes chain each pair's answer.",
    q="every route, asset, amount, receiver, minimum and balance",
    why="Routes form an unbounded space of operation lists; the tests run a few fixed ones.",
    files=["contracts/router/src/contract.rs", "contracts/router/src/operations.rs"],
    mech=[("route assembly and assertion", "contracts/router/src/contract.rs"), ("a single hop", "contracts/router/src/operations.rs")],
    note="Message lists are reconstructed symbolically over the whole list of operations.",
)
P(
    id="D01",
    title="A swap pays the curve's output less commission to the right receiver",
    statement="A swap on the XYK, sale-tax, stable or concentrated pair evaluates the pool's curve on the reserves before the trade and the amount offered (less any sale tax), keeps the factory's commission, and sends the rest in the asked asset to the validated recipient or else the trader. The fee share recipient, the factory's fee address and the tax recipient get exactly their configured parts of the commission or tax. Nothing else leaves the pool.",
    q="every pool of native coins and tokens, both directions, all reserves, amounts, fees, fee shares, taxes and recipients (rounding aside)",
    why="Tests sample amounts and fee settings; who is paid, in what, and as which function of reserves and rates has to hold for all of them.",
    files=["contracts/pair/src/contract.rs", "contracts/pair_xyk_sale_tax/src/contract.rs", "contracts/pair_stable/src/contract.rs", "contracts/pair_stable/src/utils.rs", "contracts/pair_concentrated/src/contract.rs", "packages/astroport_pcl_common/src/utils.rs"],
    mech=[("swap execution", "contracts/pair*/src/contract.rs swap"), ("curve and commission", "contracts/pair*/src/contract.rs and utils.rs compute_swap")],
    note="Per pool shape and direction, all paths; amounts compared as rational functions of the reserves. Newton solvers are kept uninterpreted: their arguments and the use of their results are checked, not their convergence.",
)

PAIRFILES = ["contracts/pair/src/contract.rs", "contracts/pair_xyk_sale_tax/src/contract.rs", "contracts/pair_stable/src/contract.rs", "contracts/pair_stable/src/utils.rs", "contracts/pair_concentrated/src/contract.rs", "contracts/pair_transmuter/src/contract.rs", "packages/astroport_pcl_common/src/utils.rs", "packages/astroport/src/asset.rs"]

P(
    id="D02",
    title="Pools are paid exactly what a swap or deposit states, in their own assets",
    statement="A swap of a native coin requires exactly the offered amount of that coin among the funds of the call, and a swap of a token is accepted only through that token's own transfer hook; offering an asset outside the pool fails. A deposit takes exactly the stated amount of each asset, as coins sent or by transfer from the depositor, whatever the order of the list, and rejects any other coin.",
    q="every pool of native coins and tokens on the XYK, sale-tax, stable, concentrated and transmuter pairs, every list of assets, amount and sender",
    why="A missing check for one asset kind or one order of the list lets a trader pay with nothing; tests try a few orders and kinds.",
    files=PAIRFILES,
    mech=[("funds checks", "packages/astroport/src/asset.rs assert_sent_native_token_balance, assert_coins_properly_sent"), ("token hook", "contracts/pair*/src/contract.rs receive_cw20"), ("transfers of deposited tokens", "contracts/pair*/src/contract.rs provide_liquidity")],
    note="Each pool shape (native/token per asset) and each order of the list is run separately over all paths.",
)

P(
    id="D03",
    title="A deposit mints LP once, to its receiver, in proportion to the pool's growth",
    statement="A deposit mints exactly one amount of LP, to the validated receiver or else the depositor, or, when staking is asked for, to the pool with exactly that amount staked in the generator on the receiver's behalf. The amount is the growth of the pool's invariant over the reserves before the deposit in proportion to the LP supply; a first deposit leaves the minimum liquidity locked in the pool itself. No other message mints LP.",
    q="every pool shape, deposit order, amount, reserve and LP supply (rounding and solver convergence aside)",
    why="Minting against the reserves after the deposit, to the wrong address, or twice passes tests with one depositor; it must be right for every state.",
    files=PAIRFILES,
    mech=[("share computation and minting", "contracts/pair*/src/contract.rs provide_liquidity"), ("mint message", "contracts/pair*/src/contract.rs mint_liquidity_token_message")],
    note="Amounts are compared as rational functions; the invariants of the stable and concentrated curves are kept as uninterpreted functions of the reserves.",
)

P(
    id="D04",
    title="Trades, deposits and withdrawals honour the user's limits",
    statement="A swap succeeds only if its spread over the pool's reference price, or its shortfall from the price the trader states, is within the trader's limit; the limit defaults to half a percent (five percent in concentrated pools) and cannot exceed one half. A deposit succeeds only if it mints at least the minimum LP asked for, and a withdrawal only if it pays at least the minimum of each asset asked for, in whatever order they are listed.",
    q="every pool shape, direction, reserve, amount, limit and stated price",
    why="Tests hit the limit with one trade; a limit checked against the wrong amount, only on one branch, or not at all needs all paths and values.",
    files=PAIRFILES,
    mech=[("spread limit", "contracts/pair*/src/contract.rs assert_max_spread"), ("minimum LP and minimum assets", "contracts/pair*/src/contract.rs provide_liquidity, ensure_min_assets_to_receive")],
    note="The inequality that guards success is shown to imply the limit up to positive factors. Fixed defects: the sale-tax, concentrated and transmuter pairs ignored some of the minimums.",
)

P(
    id="D05",
    title="A withdrawal burns the LP sent and pays the proportional reserves to its sender",
    statement="Every withdrawal takes LP coins of that very pool sent with the call, burns exactly them, and sends the sender, for every asset of the pool, that part of the reserve which the coins are of the LP supply, rounded against the sender. Nothing else leaves, and apart from swaps and withdrawals no message of a pair pays out pool assets.",
    q="every pool shape, LP amount, supply and reserve; every message of the five pool contracts",
    why="Tests withdraw one amount from one pool; who is paid, what is burnt and in which proportion has to hold for all of them.",
    files=PAIRFILES,
    mech=[("withdrawal", "contracts/pair*/src/contract.rs withdraw_liquidity"), ("shares of the reserves", "contracts/pair*/src, packages/astroport_pcl_common/src/utils.rs get_share_in_assets")],
    note="Per pool shape over all paths; payments compared as rational functions of reserves and supply.",
)

P(
    id="D06",
    title="Price accumulators count each second once at the price before the trade",
    statement="A swap, deposit or withdrawal in a later second than the last one moves both price accumulators on, wrapping around, by the seconds elapsed times the pool's price over its reserves before that operation, and the time of the last update becomes now; in the same second nothing moves. Only time passes while a reserve is empty. The query for current values moves the stored ones on in the same way without changing them, and no other message touches them.",
    q="every pool shape, operation, amount, reserve and time (for the concentrated pool, whose withdrawals leave the price alone, swaps and deposits)",
    why="Anyone can build an oracle on these sums: one operation which counts its own effect on the price, or a second twice, lets a trader move the average; no test fixes the value after every kind of operation.",
    files=PAIRFILES,
    mech=[("accumulation", "contracts/pair*/src accumulate_prices"), ("query", "contracts/pair*/src query_cumulative_prices")],
    note="Increments compared as rational functions of reserves, times and the curve's uninterpreted solver. Fixed defect: the stable pair's deposits accumulated over native balances which already held the deposit.",
)
P(
    id="D07",
    title="Price observations hold every trade once and are committed once",
    statement="Every swap which is not tiny adds its two amounts, first asset first, to the one pending observation of its second, or starts a new one in a later second. It appends the observation pending before the swap to the ring at its head and moves the head one slot on exactly when that observation is newer than the newest entry (in an empty ring: older than now). Nothing else writes observations, and the query answers for the time the caller asked for.",
    q="every swap amount, reserve, fee, time and ring content of the stable and concentrated pools, both directions",
    why="Averages read by other protocols come from this ring: an observation which is dropped, counted twice, or written to the wrong slot or with the amounts swapped lets one trade move the average; unit tests commit a handful of observations.",
    files=PAIRFILES,
    mech=[("pending and commit", "contracts/pair_stable/src/utils.rs accumulate_swap_sizes"), ("concentrated", "packages/astroport_pcl_common/src/utils.rs accumulate_swap_sizes"), ("ring", "packages/circular_buffer/src/lib.rs")],
    note="The averaging arithmetic (moving sums, interpolation) is not decided.",
)
P(
    id="D08",
    title="Tracked balance records equal the reserves after each operation",
    statement="Where a pool tracks balances, every swap, deposit and withdrawal records, at the current height and for both assets, the reserve before plus what came in minus everything sent out; where it does not, it records nothing. No other message writes these records, except zeros at creation or when tracking is switched on. The query answers from the record at the height asked for.",
    q="every amount, reserve, fee and configuration of the constant-product, sale-tax and concentrated pools",
    why="Other contracts size votes and incentives by these records; a record which forgets a fee or the tax drifts from the real reserves with every trade, and tests compare it after a handful of operations.",
    files=PAIRFILES,
    mech=[("records", "contracts/pair/src BALANCES, packages/astroport_pcl_common/src/state.rs BALANCES"), ("query", "query_asset_balances_at")],
    note="Amounts compared as rational functions of reserves, amounts in and amounts sent.",
)

P(
    id="D09",
    title="Simulations answer exactly what the operation would do",
    statement="For each pair, simulating a swap answers the amount, spread and commission that the swap itself would yield over the same reserves (before any sale tax on the proceeds), and simulating a withdrawal or a deposit answers the refunds it would pay or the shares it would mint. The reverse simulation answers an offer whose forward quote is the amount asked for. Assets outside the pool are refused.",
    q="every reserve, supply, amount, fee and pool configuration of the five native pair types",
    why="Users, routers and the maker take their limits from simulations; tests compare simulation and execution at a handful of balances, and a drift between the two formulas shows elsewhere.",
    files=PAIRFILES,
    mech=[("queries", "contracts/pair*/src/contract.rs, queries.rs query_simulation, query_reverse_simulation, query_share, simulate_*"), ("execution", "swap, provide_liquidity, withdraw_liquidity")],
    note="The numeric solvers are opaque: both sides must call the same solver with the same arguments. Rounding is not modelled. The stable pair's queries read decimals from the registry, taken equal to the precisions stored at creation (D12).",
)
P(
    id="D11",
    title="The transmuter trades and pays out one to one in whole units",
    statement="A transmuter swap pays exactly the offered amount, rescaled for the decimals of the two assets, to the receiver in the asset asked for, which must be named where there is a choice, and fails if the pool holds less. A withdrawal in chosen assets burns exactly the value of the amounts asked for, returns the rest of the LP sent, and pays exactly these amounts to the sender. The scaling of each asset is fixed at creation from its registered decimals.",
    q="every amount, number of assets, set of decimals and choice of withdrawn assets",
    why="A transmuter has no curve which punishes a wrong rate: any deviation is a free drain. Its repository tests cover a few decimals and do not run offline.",
    files=["contracts/pair_transmuter/src/contract.rs", "contracts/pair_transmuter/src/utils.rs", "contracts/pair_transmuter/src/state.rs"],
    mech=[("swap", "contracts/pair_transmuter/src/contract.rs swap, utils.rs Config::normalize"), ("withdrawals", "contract.rs withdraw_liquidity"), ("coefficients", "contract.rs instantiate")],
    note="Pools of two and three assets are enumerated; rounding is not modelled.",
)
P(
    id="D12",
    title="A pair's assets, decimals, factory and LP coin never change",
    statement="A pair is created only over distinct, valid assets of the allowed number, for the factory named, and asks the chain for exactly one LP coin. Afterwards its assets, type, own address, factory and recorded decimals never change, and its LP coin is set once, from the chain's answer, while there is none.",
    q="every creation message and every later message and reply of the five native pair types",
    why="All other guarantees of a pair rest on these fields; a message which rewrites one of them is visible only after a particular history.",
    files=PAIRFILES,
    mech=[("creation", "contracts/pair*/src/contract.rs instantiate"), ("LP coin", "contracts/pair*/src/contract.rs reply"), ("decimals", "contracts/pair_stable/src/utils.rs, packages/astroport_pcl_common/src/utils.rs store_precisions")],
    note="Creation is analysed with one, two, three and six assets of either kind.",
)

P(
    id="D10",
    title="Pair settings stay within bounds and amplification moves slowly",
    statement="A pair's fee share is positive, at most a tenth, and goes to a validated address; sale taxes are at most one half, only on coins of the pair, to validated recipients; concentrated pools' parameters stay within their limits, with the fee at balance below the fee away from it. Amplification stays within its limits, moves from its current value at most tenfold, over at least a day and not within a day of the last change, or freezes at its current value, and every curve evaluation uses the value of the moment. No other message moves these settings, and changing them moves no price.",
    q="every settings message, stored configuration and time for all five native pair types",
    why="An amplification which jumps, or a fee beyond its limit, takes value from liquidity providers at once; the checks combine stored state, time and message in ways a few example updates do not reach.",
    files=PAIRFILES,
    mech=[("stable", "contracts/pair_stable/src/contract.rs update_config, start_changing_amp, stop_changing_amp; utils.rs compute_current_amp"), ("concentrated", "packages/astroport_pcl_common/src/state.rs PoolParams::update_params, PoolState::promote_params, stop_promotion, get_amp_gamma"), ("sale tax", "packages/astroport/src/pair_xyk_sale_tax.rs check"), ("fee share", "update_config of each pair")],
    note="Who may change settings is A01's. Limits are the documented numbers.",
)
P(
    id="D13",
    title="Concentrated pools: no action makes a loss; prices follow trades slowly",
    statement="In a concentrated pool the price of each trade becomes the last price, and the oracle price moves to the previous last price with the configured half-time, once per second. Profits are measured over the reserves and shares after the action, and an action which lowers the real profit fails unless amplification is moving. The price scale moves only by the prescribed step towards the oracle price, only while it is far enough from it and profits exceed their threshold, and only if it leaves more than half of the profit.",
    q="every trade, deposit, withdrawal, price state and time of a concentrated pool",
    why="Repegging sells liquidity providers' profits: one wrong price, an update at the wrong time or a missed loss check drains them slowly, and only after a sequence of trades in which prices move.",
    files=["packages/astroport_pcl_common/src/state.rs", "packages/astroport_pcl_common/src/utils.rs", "packages/astroport_pcl_common/src/math", "contracts/pair_concentrated/src/contract.rs", "contracts/pair_concentrated/src/utils.rs"],
    mech=[("repegging", "packages/astroport_pcl_common/src/state.rs PoolState::update_price"), ("reserves and shares", "contracts/pair_concentrated/src/contract.rs swap, provide_liquidity, withdraw_liquidity")],
    note="The numeric solvers for the invariant, the half-life power and the square root are taken as given functions of their inputs; rounding is not modelled.",
)
P(
    id="D14",
    title="A deposit made at a price off the pool's by more than the limit fails",
    statement="In constant product and concentrated pools, a deposit into a pool with liquidity succeeds only if it is worth no less than the tolerance allows: in constant product pools each price the deposit implies is off the pool's by at most the tolerance, in concentrated pools the shares minted fall short of the deposit's value at the price scale by at most the tolerance, unless the deposit is balanced up to a hundred-thousandth of a unit of an asset. The tolerance is the one given, or else half a percent (5% in concentrated pools), and one above 50% is refused.",
    q="every deposit into a constant product, sale tax or concentrated pool which has liquidity, any amounts, reserves, kinds and order of assets, and tolerance",
    why="The tolerance is what protects a depositor from a price moved just before; tests try a few prices on one side, with the tolerance given.",
    files=["packages/astroport/src/asset.rs", "packages/astroport_pcl_common/src/utils.rs", "contracts/pair/src/contract.rs", "contracts/pair_xyk_sale_tax/src/contract.rs", "contracts/pair_concentrated/src/utils.rs"],
    mech=[("constant product", "contracts/pair/src/contract.rs assert_slippage_tolerance; contracts/pair_xyk_sale_tax/src/contract.rs assert_slippage_tolerance"), ("concentrated", "packages/astroport_pcl_common/src/utils.rs assert_slippage_tolerance, called from contracts/pair_concentrated/src/utils.rs")],
    note="The square root and the solvers are taken as given functions of their inputs; rounding is not modelled.",
)
P(
    id="D15",
    title="Pools with an empty side neither trade nor grow by one side only",
    statement="In the constant product, sale tax, stable and concentrated pairs every successful swap offers something and finds both reserves non-zero before it. Every successful deposit leaves no side of the pool empty, and the first one puts in something of both assets.",
    q="every swap and deposit, any kinds and order of assets, reserves and amounts",
    why="With an empty side the curve is undefined: a trade against it takes everything or divides by zero, and a one-sided first deposit fixes a meaningless price. Tests try one empty pool.",
    files=PAIRFILES + ["packages/astroport/src/asset.rs", "packages/astroport_pcl_common/src/utils.rs"],
    mech=[("swaps", "packages/astroport/src/asset.rs check_swap_parameters; packages/astroport_pcl_common/src/utils.rs before_swap_check"), ("deposits", "provide_liquidity of contracts/pair, pair_xyk_sale_tax, pair_stable; contracts/pair_concentrated/src/utils.rs")],
    note="How much a deposit or swap moves is D01, D03 and their neighbours'.",
)

P(
    id="D16",
    title="Average observed prices are means; past prices lie on the line between them",
    statement="When a stable or concentrated pair appends an observation of a trade, the average stored with it is that of all observations then kept, computed from the previous average: the first one is its own average, until the ring is full the price joins the mean, and afterwards exactly the overwritten observation leaves it. A question about a past time which lies between two kept observations is answered by the straight line between their averages, one at or after the newest by the newest average, and one before the oldest fails.",
    q="every trade, ring size, filling and stored prices; every time asked about",
    why="A wrong term in the update leaves an error in every later average which other contracts price by. Tests look at rings which have just been filled with equal prices.",
    files=["contracts/pair_stable/src/utils.rs", "contracts/pair_concentrated/src/utils.rs", "packages/astroport/src/observation.rs"],
    mech=[("average", "packages/astroport/src/observation.rs safe_sma_calculation, safe_sma_buffer_not_full"), ("past prices", "packages/astroport/src/observation.rs query_observation")],
    note="Rounding of the average is not decided (K04); which observation is written where is D07's.",
)
PFACT = ["contracts/factory/src/contract.rs", "contracts/factory/src/state.rs", "contracts/factory/src/migration.rs", "packages/astroport/src/factory.rs"]
P(
    id="G01",
    title="Each asset set has at most one registered pair, created as configured",
    statement="Creating a pair succeeds only if no pair of the same assets is registered in any order, the assets are distinct and valid, and the named type is configured, enabled, and open to the sender; it instantiates exactly the configured code over the given assets with the owner as admin. A pair is registered only by the answer to its own creation, with the answered address and never over another one. Only the owner's deregistration removes exactly the named pair, and it tells the generator to stop rewarding that pool.",
    q="every creation, deregistration and reply, order of assets and state of the registry",
    why="Routers, the maker and the generator find and trust pairs through this registry; a wrong or replaced entry redirects everyone's funds. Tests create a few pairs of two assets.",
    files=PFACT,
    mech=[("creation", "contracts/factory/src/contract.rs execute_create_pair, reply"), ("removal", "contract.rs deregister"), ("keys", "contracts/factory/src/state.rs pair_key")],
    note="Sets of two and three assets of each kind are enumerated. The key joins the asset names without separators, as it always did.",
)
P(
    id="G02",
    title="Factory settings and fees are bounded, filed correctly and stated truthfully",
    statement="Every stored pair configuration is filed under its own type with total and maker fees of at most 100%, and a type is configured once at creation. Updates set exactly the named settings to the given, validated values and keep the rest, and migration keeps every figure. The fee query answers with the fees of the asked type and the current fee address, and the list of disabled types holds exactly the types disabled for pairs or rewards.",
    q="every settings message, migration and query of the factory",
    why="Every swap of every pair reads its fees here; a fee above 100% or the fees of another type blocks or drains all pools of a type.",
    files=PFACT,
    mech=[("settings", "contracts/factory/src/contract.rs execute_update_config, execute_update_pair_config, update_tracker_config, instantiate"), ("migration", "contracts/factory/src/migration.rs"), ("queries", "contract.rs query_fee_info, query_config, query_blacklisted_pair_types")],
    note="Who may change settings is A01's.",
)

PINC = [f"contracts/tokenomics/incentives/src/{f}.rs" for f in ("execute", "utils", "state", "query")]

P(
    id="I01",
    title="Staked LP tokens stay with their owner and pool totals follow every move",
    statement="A deposit of an LP token of a registered pair adds exactly what was received to the position of the named staker and to the pool's total. Only the owner of a position takes LP tokens out, at most what it holds, and receives exactly the named amount while position and total fall by it. Claims and all other entries leave positions' amounts and pool totals as they are, and no pool is claimed twice in one call.",
    q="every entry of the incentives contract, known and new pools and positions, native and cw20 LP tokens, any amounts",
    why="The contract holds the LP tokens of all stakers in one balance; a wrong entry lets one take the liquidity of others.",
    files=PINC,
    mech=[("deposits and withdrawals", "contracts/tokenomics/incentives/src/execute.rs deposit, withdraw"), ("positions", "contracts/tokenomics/incentives/src/state.rs update_and_sync_position, UserInfo::save, PoolInfo::save")],
    note="What rewards leave is I03's.",
)
P(
    id="I02",
    title="Rewards grow a pool's index by rate times time over stake and end when due",
    statement="Every entry which brings a pool up to date raises the index of each reward by exactly what its schedule pays from the last update until now, plus what was orphaned before, divided by the stake as it was. A schedule ends at its end, the next stored one takes over, ended rewards leave the pool and their final index is kept for stakers who have not claimed it; what accrues while nobody stakes is set aside as orphaned. Nothing accrues twice, and a second update in the same block changes nothing.",
    q="every deposit, withdrawal, claim and administrative update, every case of schedules which run, end, follow on or were skipped between two updates, any rates, times and stakes",
    why="The index decides what all stakers of a pool are paid; an error mints or loses rewards.",
    files=PINC,
    mech=[("accrual", "contracts/tokenomics/incentives/src/state.rs PoolInfo::update_rewards, next_schedule"), ("storing", "state.rs PoolInfo::save, FINISHED_REWARD_INDEXES")],
    note="Exact for pools of up to three rewards with up to two later schedules each; the rounding of divisions is not modelled.",
)
P(
    id="I03",
    title="Stakers are paid the growth of each reward index times their stake, once",
    statement="A deposit, withdrawal or claim first pays the position's owner, for each reward of the pool and each reward which ended since the last claim, the growth of its index since then times the stake the position had. It then takes over the current indexes, so the same growth is never paid again, also where rewards ended, began anew or were removed in between. The query for pending rewards states what a claim would pay at that moment.",
    q="every deposit, withdrawal and claim, and the query, in every case of rewards which ran, ended, began anew or were removed since the last claim",
    why="This is how rewards leave the contract; paying twice drains other stakers' rewards, and a failing claim locks the stake.",
    files=PINC,
    mech=[("claims", "contracts/tokenomics/incentives/src/utils.rs claim_rewards"), ("positions", "state.rs UserInfo::claim_finished_rewards, reset_user_index, update_and_sync_position"), ("query", "contracts/tokenomics/incentives/src/utils.rs query_pending_rewards")],
    note="Exact for pools of up to three rewards; the rounding of divisions is not modelled.",
)
P(
    id="I04",
    title="ASTRO emissions are shared by allocation points among exactly the active pools",
    statement="After setting up pools, changing the tokens per second, deactivating a pool or blocking tokens or pair types, every active pool emits the tokens per second times its points over the sum of the points of all active pools, every other touched pool emits nothing, and the stored total is that sum. Rewards accrue at the old rate up to the change. A pool leaves with its points exactly once, whatever the current rate and however many of its tokens are blocked, and nothing else changes.",
    q="every entry which changes emissions, for sets of two and three pools in every combination of blocked ones, any points, rates and times",
    why="Points which are subtracted twice or left behind stop the administration of emissions or overpay ASTRO.",
    files=PINC,
    mech=[("setting up", "contracts/tokenomics/incentives/src/execute.rs setup_pools, set_tokens_per_second, update_blocked_pool_tokens"), ("deactivating", "contracts/tokenomics/incentives/src/utils.rs deactivate_pool, deactivate_blocked_pools"), ("rates", "contracts/tokenomics/incentives/src/state.rs set_astro_rewards, disable_astro_rewards")],
    note="Exact for up to three pools; the rounding of divisions is not modelled.",
)
P(
    id="I05",
    title="An offered reward is taken in full, charged once and emitted evenly",
    statement="Offering an external reward to a pool of a registered pair takes exactly the offered amount from the sender, charges the fee exactly when the reward is new to the pool and not ASTRO, and accepts nothing else along. The reward then emits the amount divided by the time until the end of its last week on top of everything scheduled before, up to that end, and nothing changes afterwards or for other rewards. Blocked tokens, empty or overlong schedules, and a sixth external reward are rejected, and the fee query announces exactly the fees which would be charged.",
    q="every offer, alone or with another, for every position of its end among the running and later periods, any amounts, rates and times",
    why="The stored periods are patched at the new end; one wrong boundary pays out more or less than was deposited.",
    files=PINC,
    mech=[("offering", "contracts/tokenomics/incentives/src/utils.rs incentivize"), ("periods", "contracts/tokenomics/incentives/src/state.rs PoolInfo::incentivize"), ("schedule", "packages/astroport/src/incentives.rs IncentivesSchedule::from_input")],
    note="Exact for up to two later periods before or after the new end and up to three rewards; the rounding of divisions is not modelled.",
)
P(
    id="I06",
    title="A removed reward and orphaned rewards are paid back exactly once",
    statement="When the owner removes a reward, the named and validated receiver gets exactly what the reward would still have emitted, together with its orphaned part; upcoming periods are left out on request. Everything paid back is removed from the schedules, while the index earned until then stays available to stakers who have not claimed. Collecting orphaned rewards pays each of the first entries in full once and removes them, empty ones included.",
    q="every removal for every case of passed and later periods, with and without stakers; collections of up to three entries and any limit",
    why="An amount which is paid back and also kept as orphaned or scheduled is paid twice, at the cost of other pools which share the contract's balance.",
    files=PINC,
    mech=[("removal", "contracts/tokenomics/incentives/src/utils.rs remove_reward_from_pool"), ("what is left", "contracts/tokenomics/incentives/src/state.rs deregister_reward"), ("orphaned rewards", "contracts/tokenomics/incentives/src/utils.rs claim_orphaned_rewards")],
    note="Exact for up to three rewards and two later periods; the rounding of divisions is not modelled.",
)
P(
    id="I07",
    title="Incentives accept only valid settings, blocked tokens and emission pools",
    statement="An update of the settings changes exactly the named ones, to validated addresses, a well-formed token, a fee with a possible denom and a gas limit within its range; a new ASTRO token replaces the old one in the rewards of the active pools and changes nothing else there. A token is blocked only if it is not ASTRO and not blocked yet, unblocked only if it is blocked, and named once. A pool is given emissions only with points, if the factory knows its pair, none of its tokens is blocked and its type is not blocked.",
    q="every administrative message, every stored configuration, list and answer of the factory and pairs",
    why="A wrong gas limit or address stops all payments; emissions for an unknown pair go to whoever minted its LP token.",
    files=PINC,
    mech=[("settings", "contracts/tokenomics/incentives/src/execute.rs update_config"), ("blocked tokens", "contracts/tokenomics/incentives/src/execute.rs update_blocked_pool_tokens"), ("set-up", "contracts/tokenomics/incentives/src/execute.rs setup_pools")],
    note="Pools and tokens are given in concrete small sets; everything else is unrestricted.",
)

P(
    id="L01",
    title="Lists answered page by page lead to every stored entry exactly once",
    statement="Each query which takes a limit (pairs, fee grants, stakers, pools, blocked tokens, reward schedules, registered coins, vesting accounts, token accounts and allowances) answers with one entry per stored entry of the account or pool that is named, in the order of the keys. A page begins right after the entry named as its start, with the first one only if none is named, and is cut only by its length. It never holds more entries than were asked for.",
    q="every page of every list, whatever is stored",
    why="Clients and migrations walk lists page by page; an entry at the border of two pages which is left out or given twice is lost or counted twice.",
    files=["contracts/factory/src/state.rs", "contracts/periphery/fee_granter/src/query.rs", "contracts/periphery/native_coin_registry/src/contract.rs", "contracts/tokenomics/incentives/src/query.rs", "contracts/tokenomics/incentives/src/state.rs", "contracts/tokenomics/vesting/src/state.rs", "contracts/tokenomics/xastro_token/src/contract.rs"],
    mech=[("pairs", "contracts/factory/src/state.rs read_pairs"), ("stakers", "contracts/tokenomics/incentives/src/state.rs list_pool_stakers"), ("schedules", "contracts/tokenomics/incentives/src/query.rs query_external_reward_schedules"), ("vesting", "contracts/tokenomics/vesting/src/state.rs read_vesting_infos")],
    note="Ranges of the storage are taken to be in the order of their keys; entries which cannot be read are left out.",
)

PMAKER = ["contracts/tokenomics/maker/src/contract.rs", "contracts/tokenomics/maker/src/utils.rs", "packages/astroport/src/maker.rs"]
P(
    id="M01",
    title="The fee collector accepts only valid settings, bridges and seizable assets",
    statement="Instantiation and every update of the settings store validated addresses, checked assets, a positive spread limit of at most a half, a second receiver's cut of 1 to 50 per cent, a cooldown of 30 to 600 seconds, a positive dev fund share of at most everything whose asset can be bought for ASTRO, and a governance part of at most everything; some receiver is always left. An update changes exactly the named settings. Bridges are stored only if known pools lead over them to ASTRO, rewards are enabled once, and seizable assets are exactly those given.",
    q="every administrative message and instantiation, any stored configuration and any answer of the factory",
    why="A wrong address, share or bridge sends protocol fees to nowhere or blocks every later distribution.",
    files=PMAKER,
    mech=[("settings", "contracts/tokenomics/maker/src/contract.rs update_config"), ("bridges", "contracts/tokenomics/maker/src/contract.rs update_bridges; utils.rs validate_bridge"), ("set-up", "contracts/tokenomics/maker/src/contract.rs instantiate")],
    note="Updates are looked at one setting at a time; the length of the reserve's release is only required to be positive.",
)
P(
    id="M02",
    title="Collected fees are swapped only towards ASTRO, in known pools and within limits",
    statement="Collecting swaps each named asset, up to the given limit and the balance, in the factory's pool with the stored bridge, else with the default bridge, else with ASTRO; a bridge is used only if a pool leads on from it. Each swap carries the configured spread limit and pays to the collector itself, and the bridge assets which come in are the only ones swapped on, to a bounded depth, before a distribution. Naming an asset twice, collecting before the cooldown is over and follow-up messages from anyone else are refused.",
    q="every collection of up to two assets over every kind of route, any balances, limits, stored bridges, pools and times",
    why="Whatever the collector sends to another pool or without a limit is lost to everyone ASTRO fees are meant for.",
    files=PMAKER,
    mech=[("collecting", "contracts/tokenomics/maker/src/contract.rs collect, swap_bridge_assets"), ("routes", "contracts/tokenomics/maker/src/contract.rs swap, swap_no_validate"), ("swaps", "contracts/tokenomics/maker/src/utils.rs build_swap_msg, try_build_swap_msg, validate_bridge")],
    note="Two assets at once are looked at in fewer combinations of routes than one.",
)
P(
    id="M03",
    title="A distribution pays each receiver its share and never more than collected",
    statement="A distribution splits the ASTRO balance, less what is reserved from before the rewards were enabled, into the second receiver's cut, governance's part of what that leaves and the dev fund's share, and the stakers get all the rest; a receiver which is not set gets nothing. The reserve is released evenly over its blocks, is stored less what was released and is never distributed twice. Swapped dev fund shares are passed on in full to the configured address.",
    q="every combination of receivers and of token kinds, any balance, shares, reserve and block",
    why="This is the payment of all protocol fees; a share taken of the wrong base takes money from stakers, and an excess one stops every distribution.",
    files=PMAKER,
    mech=[("split", "contracts/tokenomics/maker/src/contract.rs distribute"), ("reserve", "contracts/tokenomics/maker/src/contract.rs distribute_astro"), ("dev fund", "contracts/tokenomics/maker/src/reply.rs")],
    note="The rounding of the shares is not modelled.",
)
P(
    id="M04",
    title="Seizing pays only seizable assets, only to the stored receiver",
    statement="Seizing sends each named asset which is listed as seizable, up to the given limit and the balance, to the stored receiver and to nobody else. It is refused for an empty list and when any named asset is not listed as seizable.",
    q="every list of up to two named and two seizable assets, with and without limits, any balances",
    why="Anyone can call it; an asset which is not listed, such as collected ASTRO, must not leave this way.",
    files=PMAKER,
    mech=[("seizing", "contracts/tokenomics/maker/src/contract.rs seize"), ("what is seizable", "contracts/tokenomics/maker/src/contract.rs UpdateSeizeConfig")],
    note="",
)

P(
    id="Q01",
    title="Questions about settings and entries state exactly what is stored",
    statement="Each query for a contract's settings, a pair's description, or a single entry (a grant, a coin's decimals, a vesting account, an allowance, a deposit, a pool with rewards, a pair by its assets, the minter, a proxy's admins, bridges, the fee collector's balances) answers with the stored values, field by field, under the key which was asked for, and states nothing only if nothing is stored. A pool's owner is its own one or else the factory's of the moment, and its amplification is the one of the moment.",
    q="every stored configuration and entry, every key asked for",
    why="Other contracts and front ends decide by these answers; tests compare a few fields of a freshly made contract, where several values are equal or default.",
    files=["contracts/factory/src/contract.rs", "contracts/tokenomics/incentives/src/query.rs", "contracts/tokenomics/maker/src/contract.rs", "contracts/pair_stable/src/contract.rs", "contracts/pair_concentrated/src/queries.rs", "contracts/pair/src/contract.rs", "contracts/pair_xyk_sale_tax/src/contract.rs", "contracts/tokenomics/vesting/src/contract.rs", "contracts/whitelist/src/contract.rs"],
    mech=[("settings", "query of each contract, Config and Pair"), ("entries", "contracts/tokenomics/incentives/src/query.rs; contracts/periphery/*/src/contract.rs query")],
    note="Lists are decided in L01, quotes and rewards in the properties of trades, deposits and claims.",
)
P(
    id="Q02",
    title="A pool states the reserves it holds, its shares and the invariant over them",
    statement="The query for a pool's reserves answers, for each of its assets, the balance the pool holds at the moment (in the pool's own asset kinds and order), with the supply of its LP token as shares. Stable and concentrated pools state the invariant of exactly these reserves, scaled by precision and price scale, and a concentrated pool's price of a share is the virtual price of that invariant over the supply, zero without shares.",
    q="every pool, kinds of assets, reserves, decimals, supply and price scale",
    why="Prices of LP tokens elsewhere are computed from these answers; tests query a few pools with equal decimals.",
    files=["contracts/pair/src/contract.rs", "contracts/pair_stable/src/contract.rs", "contracts/pair_concentrated/src/queries.rs", "contracts/pair_xyk_sale_tax/src/contract.rs", "contracts/pair_transmuter/src/queries.rs"],
    mech=[("reserves", "packages/astroport/src/pair.rs and query_pool of each pair"), ("invariant", "query_compute_d of pair_stable and pair_concentrated; pair_concentrated query_lp_price")],
    note="The solver for the invariant is taken as a given function of its inputs.",
)
P(
    id="U01",
    title="Migrations go on only from known versions and keep what is stored",
    statement="Each contract migrates only from the contract names and versions it has been made for, stores its new name and version, and refuses everything else. Fees, types and switches of pair types, the pair, prices and addresses, shares, receivers and balances which users rely on stay what they were; what is new is validated, nothing can be seized at first, and vesting's whole balance is converted into the token its converter names. The simple migrations change nothing but the version.",
    q="every contract with a migration, every version it names and any other, every stored configuration and message",
    why="A migration which starts from an unknown layout, or resets a setting, destroys a contract's state once and for all users.",
    files=["contracts/factory/src/migration.rs", "contracts/factory/src/contract.rs", "contracts/tokenomics/maker/src/migration.rs", "contracts/tokenomics/vesting/src/contract.rs", "contracts/periphery/oracle/src/contract.rs", "contracts/pair_xyk_sale_tax/src/contract.rs", "contracts/pair_astro_converter/src/migration.rs", "contracts/periphery/tokenfactory_tracker/src/contract.rs"],
    mech=[("versions", "migrate of each contract"), ("pair types", "contracts/factory/src/migration.rs migrate_pair_configs"), ("vesting", "contracts/tokenomics/vesting/src/contract.rs migrate"), ("sale tax", "contracts/pair_xyk_sale_tax/src/contract.rs migrate")],
    note="The factory's old entries are looked at one by one; the storage layouts of old versions are taken from the types the code reads them with.",
)

P(
    id="P01",
    title="A failing message undoes the whole action, unless it pays a reward",
    statement="No contract asks to go on after the failure of one of its messages, except that a staking reward which cannot be transferred, within the configured gas limit, does not stand in the way of the staker's other rewards and stake; giving back staked LP tokens is never forgiven. Such a failure changes nothing else. A contract takes exactly the answers it has asked for, tells them apart by their numbers, and refuses any other.",
    q="every message of every entry point of every contract, every answer",
    why="A forgiven failure of a refund or a swap keeps the user's funds; a refused or mistaken answer stops a pair's creation or every claim.",
    files=["contracts/tokenomics/incentives/src/utils.rs", "contracts/tokenomics/incentives/src/reply.rs", "contracts/tokenomics/maker/src/reply.rs", "contracts/tokenomics/staking/src/contract.rs", "contracts/factory/src/contract.rs", "contracts/router/src/contract.rs", "contracts/pair/src/contract.rs", "packages/astroport/src/asset.rs"],
    mech=[("payments", "packages/astroport/src/asset.rs into_submsg; incentives utils.rs claim_rewards"), ("answers", "reply of each contract")],
    note="What an answer makes of its data is part of the properties of each contract.",
)

for _n, _t, _s, _f in (
    ("K01", "No rounded trade lowers a pool's invariant", "In whole units, no trade, deposit or withdrawal leaves liquidity providers with a lower invariant per share than before.", PAIRFILES),
    ("K02", "The curves' iterations converge", "For all reserves and amplifications a pool can reach, the iterations which solve its curve end at the solution.", ["contracts/pair_stable/src/math.rs", "packages/astroport_pcl_common/src/math/math_decimal.rs"]),
    ("K03", "Many small actions gain nothing from rounding", "No sequence of deposits, withdrawals, trades or claims, however small, takes out more than it paid in because of rounding.", PAIRFILES + PINC),
    ("K04", "Averages and interpolated prices are accurate", "Moving averages, past prices between observations and time weighted averages are as close to the true values as documented.", ["packages/circular_buffer/src/lib.rs", "contracts/pair_concentrated/src/utils.rs", "contracts/periphery/oracle/src/contract.rs"]),
    ("K05", "No amount which occurs overflows", "For amounts which tokens can have, no arithmetic overflows and so blocks deposits, withdrawals or claims.", PAIRFILES + PINC),
    ("K06", "Calls stay within the gas limits", "Claims, updates and lists stay affordable however large the stored collections grow.", PINC),
):
    P(id=_n, title=_t, statement=_s, q="every amount, reserve and history", why="Tests sample a few amounts.", files=_f, mech=[("arithmetic", _f[0])], note="")
