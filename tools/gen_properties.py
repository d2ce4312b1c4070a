#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the anchors stay reviewable)."""
import json, os
P = "contracts/halo-pair/src/contract.rs"
F = "contracts/halo-factory/src/contract.rs"
FS = "contracts/halo-factory/src/state.rs"
R = "contracts/halo-router/src/contract.rs"
RO = "contracts/halo-router/src/operations.rs"
T = "contracts/halo-token/src/contract.rs"
A = "packages/haloswap/src/asset.rs"
Q = "packages/haloswap/src/querier.rs"
TK = "packages/haloswap/src/token.rs"
M = "packages/bignumber/src/math.rs"
out = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    out.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PAIRSTATE = [("pair record", "asset infos, decimals, LP token address and first-deposit requirements of the pool", "contracts/halo-pair/src/state.rs")]

prop("C01", "A swap pays exactly the constant-product price minus the 0.3% commission",
 "For reserves X (offered side, before the deposit) and Y (asked side) and an offered amount a, the gross output of a swap is floor(a*Y/(X+a)), the commission is floor(0.3% of the gross output), and the trader is paid gross minus commission. "
 "The payment message, and the amounts the swap reports, carry exactly these numbers, whichever of the two pool assets is offered; the reserves used are the pool's real balances with the just-received offer taken out of the offered side only. "
 "The reported spread is floor(a*t) minus the gross output, with t = Y/X truncated at 18 decimal digits; the swap is refused when that is negative or a reported number exceeds 128 bits or the reserve is empty.",
 ["inputs", "configurations"], "all 128-bit reserves and offers, both swap directions, all kinds of asked asset (token or native)",
 "Tests swap a handful of amounts through two pools; the formula has to be exact for every 128-bit triple, including rounding at large and tiny ratios.",
 [P, M, A], [("swap", P), ("compute_swap", P), ("Asset::into_msg", A), ("Uint256/Decimal256 arithmetic", M)], PAIRSTATE,
 ["messages and attributes of the pair's response to a token Send with a swap hook"])
prop("C02", "A swap never shrinks the reserve product and never drains a reserve",
 "After any swap the pool accepts, the product of the two reserves (real balances after the payout) is at least the product before the offer arrived, and the payout is strictly smaller than the asked reserve whenever that reserve is non-zero. "
 "An empty offer pays nothing.",
 ["inputs", "histories"], "all reserves and offers; every accepted swap, hence every history of swaps",
 "Tests never compute the product, and a one-unit rounding loss at particular magnitudes is invisible in sampled cases.",
 [P, M], [("compute_swap", P), ("swap", P)], PAIRSTATE, ["payout of accepted swaps versus pool balances"])
prop("C03", "Only a pool token's own contract can trigger a swap, and the payout goes right",
 "A swap is executed only when the notifying caller is the contract of one of the pool's two assets that is a token, and the offered asset is that token with exactly the notified amount. "
 "Every accepted swap pays out in the other pool asset only, in at most one message (none when the payout is zero), to the requested recipient if one was given and otherwise to the account that sent the tokens. "
 "A swap changes no state of the pool contract, and a malformed hook is rejected.",
 ["inputs", "configurations"], "all callers, notified senders, amounts, recipients, hook payloads and pool compositions",
 "Tests use two or three callers; the authorisation has to hold for every caller and pool composition.",
 [P, A], [("receive_cw20", P), ("swap", P), ("Asset::into_msg", A), ("AssetInfo::equal", A)], PAIRSTATE,
 ["response messages, errors and storage of the pair"])
prop("C04", "Max-spread and belief-price limits reject every swap beyond the limit",
 "When a maximum spread and a belief price are given, a swap is rejected if and only if its return is below offer/belief-price and the shortfall relative to that expected return exceeds the maximum spread, with amounts brought to the larger of the two decimal precisions; when only a maximum spread is given it is rejected if and only if spread/(return+spread) exceeds it; when no maximum spread is given it is never rejected for exceeding a limit. "
 "The return that is judged is the amount actually paid (after commission), and each asset's own registered decimals are used, in both swap directions. "
 "Divisions and ratios are truncated at 18 decimal digits; amounts that no longer fit 128 bits once scaled, a zero belief price and a zero denominator abort the swap.",
 ["inputs", "configurations"], "all amounts, belief prices, spreads and decimal pairs whose scaling fits the integer types (otherwise the swap aborts)",
 "Tests sample a few prices around a threshold and use few decimal combinations.",
 [P], [("assert_max_spread", P), ("swap", P)], PAIRSTATE, ["acceptance or rejection of a swap"])
prop("C05", "Providing liquidity mints exactly the fair share",
 "The first deposit into a pool (LP supply zero) mints floor(sqrt(d0*d1)) and is accepted only from a whitelisted sender whose two deposits reach the two configured minimums; every later deposit mints the smaller of floor(d0*supply/reserve0) and floor(d1*supply/reserve1), where reserves exclude the deposit itself. "
 "A provision that would mint zero is rejected. "
 "So no deposit ever raises the depositor's share of either reserve above what it contributed.",
 ["inputs", "configurations", "histories"], "all deposits, reserves, supplies, whitelists, minimums, both orders in which the two assets may be listed",
 "Tests use a couple of deposits in fixed order; fairness must hold for every ratio, order and supply.",
 [P, A], [("provide_liquidity", P), ("AssetInfo::equal", A)], PAIRSTATE, ["Mint message of the pair's response"])
prop("C06", "Providing liquidity collects exactly the declared deposits",
 "An accepted provision lists exactly the pool's two assets; for each token asset the response pulls exactly the declared amount from the caller into the pool, and for each native asset the caller attached exactly the declared amount (or none when zero is declared). "
 "The LP tokens are minted by one message to the pool's LP token, to the requested receiver or else to the caller; nothing else is sent and the pool's record does not change. "
 "A provision naming any other asset, or the same asset twice, is rejected.",
 ["inputs", "configurations"], "all asset lists, attached funds, receivers and pool compositions",
 "Tests cover a few compositions; every combination of token/native, order, and mismatch must be handled.",
 [P, A], [("provide_liquidity", P), ("Asset::assert_sent_native_token_balance", A)], PAIRSTATE,
 ["messages of the pair's response to ProvideLiquidity"])
prop("C07", "The slippage guard rejects deposits priced beyond the tolerance",
 "When a slippage tolerance s is given, a provision with s above 100% is rejected, and otherwise it is rejected if and only if (d0/d1)*(1-s) exceeds r0/r1 or (d1/d0)*(1-s) exceeds r1/r0 for deposits d and pre-deposit reserves r, each ratio and product truncated at 18 decimals. "
 "Without a tolerance a provision is never rejected for this reason.",
 ["inputs", "configurations"], "all deposits, reserves and tolerances (a zero deposit or reserve aborts when a tolerance is given)",
 "Tests sample a few tolerances on one pool.",
 [P], [("assert_slippage_tolerance", P), ("provide_liquidity", P)], PAIRSTATE, ["acceptance or rejection of ProvideLiquidity"])
prop("C08", "Withdrawal pays the pro-rata share and burns exactly the withdrawn LP tokens",
 "Redeeming n of a supply S of LP tokens (S non-zero, n at most S) pays, of each pool asset with reserve r, at most r*n/S and less than that by no more than one unit plus r/10^18, to the account that sent the LP tokens, and burns exactly n of the pool's LP token; these three messages are the whole effect. "
 "Only the pool's own LP token contract can trigger it. "
 "The arithmetic of a withdrawal never aborts for such n and S, so deposits can always be taken out.",
 ["inputs", "configurations", "histories"], "all reserves, supplies and redeemed amounts, all callers and pool compositions",
 "Tests redeem round fractions; the rounding direction and the absence of aborts need all values.",
 [P, A], [("withdraw_liquidity", P), ("receive_cw20", P), ("Asset::into_msg", A)], PAIRSTATE, ["messages of the pair's response"])
prop("C09", "Quotes agree with execution",
 "A swap quote equals what an actual swap of the same offer against the same reserves pays, spreads and charges as commission; a quote or reverse quote for an asset outside the pool is rejected. "
 "A reverse quote for receiving b reports the offer floor(X*Y/(Y-g))-X with g = floor(b*t/10^18), t = floor(10^36/(997*10^15)) the truncated inverse of 99.7%, together with the commission floor(0.3% of g); and offering one unit more than that quote yields at least b minus one unit and b/10^18.",
 ["inputs", "configurations"], "all reserves and amounts for which the reverse quote exists (the asked amount grossed up by commission is below the reserve), either asset",
 "The relation between the two code paths and the inverse relation range over all 128-bit values; tests compare single points.",
 [P, M], [("query_simulation", P), ("query_reverse_simulation", P), ("compute_offer_amount", P), ("compute_swap", P)], PAIRSTATE,
 ["query responses of the pair, compared with its swap response"])
prop("C10", "Pair queries report the recorded pool and its true balances",
 "The pool query reports, in the recorded order, each pool asset with the pool's own balance of that asset and the LP token's total supply; the pair query reports exactly the recorded assets, addresses, decimals and first-deposit requirements. "
 "Creating a pool records exactly the requested assets, decimals and requirements in the requested order, and the LP token address is recorded only from the reply of the LP token's own creation, changing nothing else.",
 ["inputs", "configurations"], "all pool compositions, addresses, balances, decimals and requirements",
 "Tests look at one or two pools; field mix-ups only show for particular compositions.",
 [P, A], [("query_pool", P), ("query_pair_info", P), ("PairInfoRaw::to_normal/query_pools", A), ("instantiate", P), ("reply", P)], PAIRSTATE,
 ["query responses and stored record of the pair"])
prop("C11", "Only the factory owner can change factory settings, and only as requested",
 "Changing the configuration, registering native-token decimals and migrating a pair are rejected for every caller but the recorded owner. "
 "A configuration change sets exactly the given fields (a new owner must be a valid address) and leaves the others; registering decimals needs a non-zero factory balance of that denomination and sets exactly that denomination's decimals, leaving all others; migrating emits exactly one migration of the named contract to the given, or else the configured pair, code. "
 "Creation of the factory makes the creator the owner with the given code ids, and the configuration query reports what is recorded.",
 ["inputs", "configurations", "histories"], "all callers, recorded owners, field combinations and denominations",
 "Tests try one stranger and a few field combinations.",
 [F, FS], [("execute_update_config", F), ("execute_add_native_token_decimals", F), ("execute_migrate_pair", F), ("query_config", F)],
 [("config", "owner and code ids", FS), ("native decimals", "denomination -> decimals", FS)], ["responses and storage of the factory"])
prop("C12", "The registry holds one pair per unordered asset pair, found in either order",
 "Creating a pair is rejected when the two assets are the same asset (including two spellings of one token address) or when the unordered pair is already registered; the answers do not depend on the order in which the two assets are given. "
 "When the new pool reports back, exactly one entry is recorded, under the assets requested at creation, with the new pool's address, its LP token address, the decimals determined at creation and its requirements, and looking the pair up in either order returns exactly that entry; no other entry changes. "
 "Two different unordered pairs never share an entry.",
 ["inputs", "histories", "configurations"], "all asset pairs (token and native), all registry contents, both lookup orders",
 "Tests register one or two pairs; key collisions and order dependence only show for particular names.",
 [F, FS, A], [("execute_create_pair", F), ("reply", F), ("query_pair", F), ("pair_key", FS)],
 [("registry", "unordered asset pair -> pair record", FS), ("pending creation", "assets and decimals of the pair being created", FS)],
 ["responses, query answers and storage of the factory"])
prop("C13", "A new pair is created with the true decimals and the requested settings",
 "Creating a pair determines each asset's decimals from its own source (the token's own information, or the factory's registered value for a native denomination) and is rejected if either is unavailable. "
 "It emits exactly one contract creation, of the configured pair code, administered by the factory, without funds, carrying the two assets in the requested order with their decimals in the same order, the configured LP token code and the requested first-deposit requirements, and asks to be told only of success.",
 ["inputs", "configurations"], "all asset kinds, orders, decimals, configurations and requirements",
 "Tests create one pair shape; swapped decimals or dropped settings show only for asymmetric inputs.",
 [F, A, Q], [("execute_create_pair", F), ("AssetInfo::query_decimals", A), ("query_native_decimals", Q)],
 [("config", "code ids", FS)], ["response of the factory to CreatePair; instantiate message"])
prop("C14", "Listing pairs page by page yields every pair exactly once",
 "A listing returns registered pairs in ascending key order, at most the requested number and never more than 30 (10 when no number is given), starting with the first pair strictly after the given one in either order of its two assets, and skips none. "
 "Hence paging through the registry from the last returned pair visits every registered pair exactly once.",
 ["inputs", "configurations", "histories"], "all registry contents, start points and limits",
 "Tests list two pairs; a skipped or repeated entry needs particular keys and page boundaries.",
 [FS, F], [("read_pairs", FS), ("calc_range_start", FS), ("query_pairs", F)], [("registry", "key -> pair record, ordered by key", FS)],
 ["answers of the factory's pair listing"])
prop("C15", "The router turns a route into its hops in order, and only the last pays out",
 "An accepted route produces one internal hop message per operation, in the given order and addressed to the router itself, where only the last hop names a recipient (the requested one, else the account that started the route) and the others none. "
 "An empty route, or one whose operations end in more than one or no output asset, is rejected; a route started through a token transfer behaves the same with the token's sender as the starter. "
 "A hop is executed only when called by the router itself and then offers the router's full balance of the offered asset to the factory-registered pair of the hop's two assets, with exactly the given recipient and no limits.",
 ["inputs", "configurations"], "all routes, recipients, starters, callers and router balances",
 "Tests use one or two hop routes with fixed names.",
 [R, RO, A], [("execute_swap_operations", R), ("assert_operations", R), ("execute_swap_operation", RO), ("asset_into_swap_msg", RO)],
 [("config", "factory address", "contracts/halo-router/src/state.rs")], ["messages of the router's responses"])
prop("C16", "A route with a minimum receive fails unless the recipient gained that much",
 "When a minimum is given, the route's messages end with exactly one check, addressed to the router itself, of the recipient's balance of the route's final asset against its balance before the route and the given minimum; when none is given there is no check. "
 "The check is accepted if and only if the recipient's current balance minus the earlier balance is non-negative and at least the minimum, and it has no other effect.",
 ["inputs", "histories"], "all routes, recipients, balances before and after, and minimums",
 "Tests check one passing and one failing amount.",
 [R, A], [("execute_swap_operations", R), ("assert_minium_receive", R), ("AssetInfo::query_pool", A)], None,
 ["messages and errors of the router"])
prop("C17", "Route quotes chain the pair quotes hop by hop",
 "A forward route quote equals the result of quoting each operation in order at its factory-registered pair, feeding each hop's return into the next; a reverse quote equals chaining the pairs' reverse quotes from the last operation to the first, feeding each hop's required offer into the previous. "
 "Empty routes are rejected, and a failing hop fails the quote.",
 ["inputs", "configurations"], "all routes and amounts, and all answers of factory and pairs",
 "Tests quote one or two hops against a symmetric mock.",
 [R, Q], [("simulate_swap_operations", R), ("reverse_simulate_swap_operations", R), ("simulate/reverse_simulate/query_pair_info", Q)],
 [("config", "factory address", "contracts/halo-router/src/state.rs")], ["answers of the router's quote queries"])
prop("C18", "An LP token is created only with valid parameters and a consistent supply",
 "Token creation is accepted only when the name has 3 to 50 bytes, the symbol has 3 to 12 characters all of which are ASCII letters or hyphens, the decimals are at most 18, and, when a cap is given, the initial balances sum to at most the cap; the recorded total supply is exactly that sum, each listed account holds exactly its listed amount, and the minter and cap are exactly those requested. "
 "A new pool asks for exactly one LP token, with itself as the only minter, no cap, no initial balance and 6 decimals.",
 ["inputs", "configurations"], "all names, symbols, decimals, initial balances, caps and minters",
 "Tests try a few bad names; boundary lengths, characters and sums are unsampled.",
 [T, TK, P], [("instantiate", T), ("InstantiateMsg::validate", TK), ("is_valid_symbol", TK), ("pair instantiate", P)],
 [("token info", "name, symbol, decimals, supply, minter", "cw20-base")], ["responses and storage of the token and of the pair"])
prop("C19", "The LP token behaves exactly as the standard CW20 token",
 "Every execution and query of the token contract has exactly the response, error and storage effect of the standard token implementation on the same state, caller and message.",
 ["inputs", "histories"], "all messages, callers and token states",
 "Tests exercise two messages; an intercepted or altered message kind shows only when sent.",
 [T], [("execute", T), ("query", T)], None, ["responses and storage of the token contract"])
prop("C20", "256-bit integer and decimal arithmetic is exact or aborts",
 "Addition, subtraction, multiplication, division and ratios of the 256-bit integer and 18-digit decimal types give the exact mathematical result, truncated toward zero at the unit or at the 18th decimal digit, and abort (never wrap) when the result or an intermediate product does not fit, on subtraction below zero and on division by zero. "
 "Conversions to and from 128-bit integers and decimals preserve the value and abort when it does not fit.",
 ["inputs"], "all 256-bit operands",
 "Tests use small constants; carries, overflow edges and truncation need the whole range.",
 [M], [("Uint256 and Decimal256 operators", M), ("from_ratio, multiply_ratio, from_uint256, percent, permille", M), ("From conversions", M)], None,
 ["results of the bignumber package's public operations"])
prop("C21", "Decimal text and decimal value convert back and forth without loss",
 "Printing a 256-bit decimal and parsing the text gives the same value, for every value; parsing text of the form digits or digits.digits with at most 18 fractional digits gives exactly the number written, and anything with more than one point, more than 18 fractional digits, a non-digit character or a value out of range is refused or aborts, never misread (an empty digit run counts as zero). "
 "The 256-bit integer's text form has the same round-trip property.",
 ["inputs"], "all 256-bit decimal and integer values, and all texts",
 "Tests parse a few dozen literals; padding and trimming errors show only for particular digit patterns.",
 [M], [("Decimal256 Display / FromStr", M), ("Uint256 Display / FromStr / TryFrom", M)], None, ["to_string / from_str of the bignumber types"])
prop("C22", "Migration keeps all state",
 "Migrating the factory, the router or a pair records the new contract name and version and changes nothing else in storage, and emits no message.",
 ["inputs", "histories"], "all prior storage contents",
 "Tests only check that migration succeeds.",
 [P, F, R], [("migrate", P), ("migrate", F), ("migrate", R)], None, ["storage and response of migrate"])
prop("C23", "No operation ever lowers what an LP token is worth",
 "In a pool of two different assets with reserves r0, r1 and LP supply S, no accepted call lowers the worth of an LP token. "
 "A provision that finds S non-zero leaves each reserve per LP token at least where it was: r'*S >= r*(S+m), with r' the reserve after everything the call attached or pulls in has arrived and m everything it mints; it pays nothing out. "
 "A withdrawal of n of S LP tokens pays p of each asset with (r-p)*S >= r*(S-n), burns exactly n of the pool's LP token, and only the LP token's contract can start it. "
 "A swap mints and burns nothing, is started only by the contract of a pool token, and leaves the product r0*r1 at least where it was. "
 "Hence over every history of calls r0*r1/S^2 never falls: no sequence of operations extracts value from the other providers.",
 ["inputs", "configurations", "histories"], "all reserves, supplies, amounts, attached funds and pool compositions, every history of accepted calls",
 "Tests never compute the worth before and after; a rounding error of one unit in the caller's favour, repeated, drains the other providers.",
 [P, A], [("provide_liquidity", P), ("withdraw_liquidity", P), ("swap", P), ("receive_cw20", P)], PAIRSTATE, ["messages of the pair's responses, against its balances and the LP supply"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in out: f.write(json.dumps(p) + "\n")
print(len(out))
