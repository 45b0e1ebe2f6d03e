#!/usr/bin/env python3
"""Writes properties.jsonl (the committed file is this script's output)."""
import json, os
K = "x/dex/keeper/"
A = "x/dex/amm/"
T = "x/dex/types/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=a, where=b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=hook)))

H = ["histories", "inputs", "configurations"]
HT = "for every sequence of messages by any number of users, in any block layout, under every valid parameter set"
FIX = "The unit tests run a few hand-written steps at friendly prices and amounts; the claim ranges over all histories, amounts and parameter sets, and rounding or ordering errors show only in particular combinations."

prop("C01", "Coins are conserved by every operation and every batch",
 "No message and no block ever creates or destroys coins other than pool shares: each coin that leaves an account arrives, in the same step, at the account entitled to it, and pool shares are only minted by pool creation and executed deposits and only burned by executed withdrawals. Within a batch, exactly as many base coins are bought as are sold, and the quote coins paid by buyers equal those received by sellers plus the rounding surplus.",
 H, HT, FIX + " No test adds up all accounts around a step.",
 [K+"swap.go", K+"pool.go", A+"match.go", T+"util.go"],
 [("bulk transfers of match results", K+"swap.go ApplyMatchResult"), ("two-sided distribution of a level", A+"match.go MatchAtSinglePrice, Match"), ("mint and burn of pool shares", K+"pool.go ExecuteDepositRequest, ExecuteWithdrawRequest, CreatePool")],
 [("bank balances and supply", "every account's coins, before and after each step", "bank module store")], ["bank balances of all accounts and total supply around each message and block hook", "matched amounts of every order of a book"])

prop("C02", "Escrow holds exactly what open orders and requests are owed",
 "At every step, each pair's escrow account holds exactly the unspent offer coins of its open orders plus any coins donated to it, and the global escrow exactly the coins of the pending deposit and withdrawal requests. Hence every cancellation, expiry, completion or failed request can be refunded in full.",
 H, HT, FIX + " The repository's own escrow invariants are evaluated by tests on a handful of states and are not run on the chain.",
 [K+"swap.go", K+"pool.go", K+"invariants.go"],
 [("escrow on placement, refund on finish", K+"swap.go placeOrder, FinishOrder"), ("request escrow", K+"pool.go Deposit, Withdraw, FinishDepositRequest, FinishWithdrawRequest")],
 [("pair escrow account", "sum of remaining offer coins of live orders", K+"swap.go"), ("global escrow account", "sum of pending request coins", K+"pool.go")], ["escrow balances and all stored orders and requests after every step"])

prop("C03", "No order trades beyond its limit price, its amount or its offer",
 "A buyer never pays more per base coin than the limit price, a seller never receives less, apart from rounding of less than one smallest quote unit per fill. Over its whole life an order never spends more than it offered nor trades more than its stated amount, and never gives something for nothing.",
 H, "for every book, every limit price and amount, and every number of partial fills over any number of batches", FIX,
 [A+"match.go", A+"util.go", T+"order.go", K+"swap.go"],
 [("fill arithmetic", A+"match.go FillOrder"), ("matchable amount caps", A+"util.go MatchableAmount")],
 [("order record", "open amount, remaining offer coin, received coin", K+"store.go")], ["order records before and after each batch", "events of user fills", "orders of books matched directly"])

prop("C04", "Trading against a pool never makes the pool poorer",
 "Whenever a pool's reserves change through trading, the pool's liquidity curve does not fall, the pool never sells below or buys above its own marginal price and, for a ranged pool, its price range, apart from rounding of a few smallest quote units per fill. Closed pools do not trade and reserves never go negative.",
 H, "for every pool shape, reserve size, price range and set of crossing orders", "Tests compare a few pools with precomputed numbers; the claim is about all reserves, ranges and order flows, where rounding direction and the choice of quotes decide.",
 [A+"pool.go", K+"swap.go", T+"pool.go"],
 [("pool quotes along the curve", A+"pool.go PoolBuyOrders, PoolSellOrders"), ("rounding of reserve updates", A+"pool.go placeOrder closures"), ("swap settlement", K+"swap.go ApplyMatchResult")],
 [("pool reserves", "balances of the reserve account", "bank store")], ["reserve balances around each batch", "quotes of pools evaluated directly"])

prop("C05", "Depositing and withdrawing liquidity is fair to all share holders",
 "A deposit takes no more than was offered and mints shares worth no more than what it adds, so other holders' part of the reserves never shrinks; a withdrawal returns exactly its pro-rata part of the reserves less the withdrawal fee, rounded down, and redeeming the last share returns everything and closes the pool. Depositing and immediately withdrawing never yields a profit, and a new pool's creator is charged at most the offered coins and gets the initial share supply.",
 H, "for every reserve ratio, share supply, deposit and withdrawal amount and fee rate", "Tests use round numbers and one or two rounds of deposits; a dilution by rounding needs particular ratios and magnitudes.",
 [A+"pool.go", K+"pool.go"],
 [("share arithmetic", A+"pool.go Deposit, Withdraw, InitialPoolCoinSupply"), ("request execution", K+"pool.go ExecuteDepositRequest, ExecuteWithdrawRequest"), ("creation", A+"pool.go CreateRangedPool; "+K+"pool.go CreatePool")],
 [("share supply", "total supply of the pool's share coin", "bank store")], ["reserves, share supply and depositor balances around each block end", "the share arithmetic called directly"])

prop("C06", "Every order and request ends exactly once, with one full refund",
 "An order is created once, only moves forward through its states, and ends exactly once: completed when fully matched, expired once its lifespan is over at the end of its first batch or later, or cancelled by its owner's request; a finished order never changes again and is removed afterwards. Every deposit or withdrawal request placed in a batch is executed exactly once at the end of that batch as succeeded or failed, a failed one being refunded in full, and is then removed.",
 H, HT + ", with batches longer than one block", FIX + " Lifespans, batch sizes and cancellations interleave in ways no test enumerates.",
 [K+"swap.go", K+"batch.go", K+"pool.go", T+"pair.go", T+"request.go"],
 [("status transitions", T+"request.go / order status helpers"), ("batch execution and clean-up", K+"batch.go ExecuteRequests, DeleteOutdatedRequests"), ("expiry", K+"swap.go ExecuteMatching"), ("finish with refund", K+"swap.go FinishOrder")],
 [("order and request records", "status, amounts", K+"store.go")], ["all order and request records after every message and block hook"])

prop("C07", "The market-making order cap is exact",
 "The number of live market-making orders counted for an account on a pair always equals the number that really exist, whichever way they end, and an account can never have more than the configured maximum of them on one pair, while an order below the maximum is not refused for that reason.",
 H, HT + "; orders end by full match, expiry, single or bulk cancellation", "Tests count up and down once; a counter drifts only after a particular mix of endings.",
 [K+"swap.go", K+"store.go"],
 [("cap check and increment", K+"swap.go MMOrder"), ("decrement on finish", K+"swap.go FinishOrder")],
 [("market-making counter", "per account and pair", K+"store.go GetNumMMOrders")], ["counter records and live orders after every step"])

prop("C08", "Replicas that execute the same blocks reach identical state",
 "Any two nodes that start from the same genesis and execute the same blocks obtain the same application hash, the same results, events and gas for every transaction, regardless of memory layout, map iteration order, wall-clock time, local configuration, queries or checks served in between, or how often a proposal was processed before.",
 ["histories", "schedules", "configurations"], "for every block history and any local difference between nodes", "Every test runs one node; divergence appears only between runs, depends on unordered iteration or local state, and the repository's own determinism simulation does not reliably pass.",
 ["app/app.go", K+"swap.go", A+"match.go", A+"util.go", T+"util.go"],
 [("ordered iteration of results", K+"swap.go ApplyMatchResult"), ("stable grouping and sorting", A+"util.go GroupOrdersByBatchId, SortOrders"), ("block execution", "app/app.go")],
 [("application hash", "Merkle root of all module stores", "base application")], ["application hash, transaction results and events of several replica processes, block by block"])

prop("C09", "A node that crashes at any point resumes to the same state",
 "Once its first block is committed, a node which stops at any point while executing or committing a block, or whose database stops accepting writes there, restarts at the last committed height with exactly the state of that height, and after re-executing the remaining blocks agrees with a node that never stopped.",
 ["crash_points", "histories"], "for every block of every history and every point between two database writes of a block", "No test restarts the application at all.",
 ["app/app.go", "app/export.go"],
 [("store mounting and loading", "app/app.go New, Load"), ("commit", "base application and store commit")],
 [("committed multistore", "versioned module stores", "application database")], ["application hash and module state after restart on the surviving database"])

prop("C10", "Exporting and importing genesis preserves the exchange",
 "Exporting the state at any height and starting a chain from it reproduces every pair, pool, pending request, order, counter and parameter, and exporting again gives the same document; afterwards the new chain treats further messages exactly like the old one would. A state reachable by valid operation is accepted by genesis validation.",
 ["histories"], "for every reachable state", "The module tests import one or two small states through the keeper only, never a whole application with pending orders, requests and disabled pools.",
 [K+"genesis.go", "x/dex/module/genesis.go", T+"genesis.go", "app/export.go"],
 [("export and import of records and indexes", K+"genesis.go InitGenesis, ExportGenesis"), ("module wiring", "x/dex/module/genesis.go"), ("validation", T+"genesis.go Validate")],
 [("genesis document", "all module records", T+"genesis.go")], ["module state of the old and of the re-imported application; both continued with the same messages"])

prop("C11", "Prices live on a consistent tick grid",
 "For every precision the price levels form one strictly increasing grid: rounding down (up) gives the nearest level not above (not below) a price, next and previous are inverse to each other with nothing in between, level numbering is a gap-free order-preserving bijection, and rounding of a price between two levels picks one of them, levels themselves being unchanged.",
 ["inputs"], "for every representable positive price from the lowest level up, and every precision in use", "Tests check a few dozen prices at precisions 3 and 4; boundary digits and powers of ten over 60 decades are unreachable by listing.",
 [A+"tick.go"], [("grid arithmetic", A+"tick.go")], [], ["results of every grid function on generated prices and walks"])

prop("C12", "Matching is price-time fair and clears the book",
 "In each batch better-priced orders trade before worse ones and, at one price, orders of earlier batches before later ones; orders of the same price and batch share in proportion to their size with the rounding remainder going to larger, then older, then user orders. A pair's first batch trades at a single price; after a batch no buy order at or above the price of a sell order is left with a matchable amount worth more than a few quote units, and the outcome does not depend on the order in which orders were added.",
 H, "for every book and last price, and every insertion order", "Tests match books of two to four orders at one precision.",
 [A+"match.go", A+"orderbook.go", A+"view.go", A+"util.go", T+"order.go", K+"swap.go"],
 [("clearing price search", A+"match.go FindMatchPrice"), ("single-price auction and ladder", A+"match.go MatchAtSinglePrice, Match"), ("proportional distribution", A+"match.go DistributeOrderAmountToOrders"), ("priority", T+"order.go HasPriority")],
 [("order book", "orders by side and price level", A+"orderbook.go")], ["fills of books matched directly, compared with an independent auction model", "order records around every batch"])

prop("C13", "A failed transaction changes nothing but its fee and sequence",
 "A message that is rejected, and any transaction one of whose messages fails, leaves no trace in pairs, pools, orders, requests, counters, parameters or balances, other than the transaction fee and the sender's sequence number; no message can crash the node. A failing deposit or withdrawal at the end of a block leaves nothing but its refund.",
 H, HT + ", including malformed and multi-message transactions", "Tests assert error codes; they do not compare the whole state before and after a failure, nor failures in the middle of a transaction.",
 [K+"msg_server.go", K+"swap.go", K+"pool.go", K+"pair.go", T+"msgs.go"],
 [("validation before effects", K+"swap.go, "+K+"pool.go Validate*"), ("transaction cache", "base application")], [], ["full state around rejected messages, and around failing multi-message transactions executed as blocks"])

prop("C14", "No input can halt block production",
 "Beginning and ending a block always succeeds: whatever orders, deposits, withdrawals, pools and parameter values users and governance were able to submit, batch execution never fails or panics, and a batch never runs forever.",
 H, HT + ", including extreme amounts, prices and reserve ratios", "A panic at block end needs a particular reachable state; tests execute a few ordinary batches.",
 ["x/dex/module/module.go", K+"batch.go", K+"swap.go", A+"match.go", A+"pool.go", A+"tick.go"],
 [("batch execution", K+"batch.go ExecuteRequests"), ("overflow guards", "types/utils.go SafeMath"), ("quote generation guard", A+"pool.go PoolBuyOrders, PoolSellOrders")],
 [], ["every block hook of every history", "matching, pool and share arithmetic called directly with extreme values"])

prop("C15", "Queries agree with the stored state and page completely",
 "Every query answer equals what the stored records say at that height: single lookups, filters by pair, status, owner, denomination and pool, balances and prices in the answers, and counts. Walking a listing page by page, forwards or backwards, with any page size, by key or offset, returns every matching record exactly once and nothing else, and queries for missing things fail cleanly.",
 H, "for every reachable state, filter and page size", "Tests page over at most a few records with one page size, and only through freshly made states whose indexes were never updated or deleted.",
 [K+"grpc_query.go", K+"store.go", T+"keys.go"],
 [("secondary indexes", K+"store.go Set*Index, Delete*Index"), ("key layout", T+"keys.go"), ("filtered pagination", K+"grpc_query.go")],
 [("indexes", "by denom, pair, reserve address, owner", K+"store.go")], ["all query endpoints through the query router after every few blocks, compared with a full scan of the records"])

prop("C16", "Only the owner can act on an order, coins or the parameters",
 "An order can be cancelled only by the account that placed it, a message moves coins and shares only out of the signer's own account (and the escrow it is owed from), and only the governance authority can change parameters; transactions not signed by the account they act for are rejected. Cancelling in bulk touches only the sender's own orders on the named pairs, and every cancellable one of them.",
 H, HT, "Tests check one wrong signer; the claim covers every message type, every account mix and bulk operations.",
 [K+"swap.go", K+"msg_server.go", T+"msgs.go", "app/app.go"],
 [("ownership check", K+"swap.go ValidateMsgCancelOrder"), ("owner index", K+"store.go IterateOrdersByOrderer"), ("authority check", K+"msg_server.go UpdateParams")], [], ["all balances and records around every message, by signer", "wrongly signed transactions delivered in blocks"])

prop("C17", "Only valid parameters are ever in force",
 "Whatever is submitted, the stored parameters stay within their documented ranges: positive batch size, rates within [0,1], price-limit ratio within [0,1), non-negative amounts and lifespans, well-formed fees and addresses. An invalid update is rejected without effect, a valid update by the authority takes effect completely, and the default parameters are valid.",
 ["inputs", "histories"], "for every parameter set that can be submitted in an update or a genesis document", "Tests try a few invalid values per field through validation only, never through an update.",
 [T+"params.go", K+"msg_server.go", K+"params.go"],
 [("range checks", T+"params.go Validate"), ("update", K+"msg_server.go UpdateParams")], [("parameters", "module parameters", K+"params.go")], ["stored parameters after every message", "validation results of generated parameter sets"])

prop("C18", "Orders and prices stay on the grid and inside the price band",
 "An accepted order's price is on the tick grid, rounded against no one but the orderer, and within the allowed band around the pair's last price; a market order gets the worst price of the band and its excess offer is returned at once. A pair's last price changes only when a batch trades, always to a grid price inside the band around the previous one.",
 H, HT, "Tests use one last price and ratio; band edges after rounding depend on all digits of both.",
 [K+"swap.go", A+"tick.go"], [("band", K+"swap.go PriceLimits"), ("placement", K+"swap.go placeOrder"), ("last price update", K+"swap.go ExecuteMatching")],
 [("last price", "price of the pair's latest trade", K+"store.go")], ["accepted orders, refunds and last prices after every step"])

prop("C19", "The order-book query shows the real book",
 "The reported order book of a pair contains, at each price step, exactly the amounts of the open user orders and the orders its pools would place, summed over that step, sorted and without crossing; steps are multiples of the requested unit, base price lies between the sides and no more steps than requested are given. Asking never fails for an existing pair with a last price and changes nothing.",
 H, "for every book, pool mix, price unit and number of steps", "Tests print one example book.",
 [K+"grpc_query.go", T+"orderbook.go", A+"view.go"], [("book view", A+"view.go"), ("response building", T+"orderbook.go MakeOrderBookPairResponse")], [], ["order-book query answers against a book rebuilt from stored orders and pool quotes"])

prop("C20", "Serving queries and checks concurrently is free of data races",
 "Queries, simulations and mempool checks served in parallel with block execution never race on shared memory, never observe a half-executed block, and never influence its outcome.",
 ["schedules"], "for every interleaving of concurrent readers with block execution and commit", "The tests are single-threaded and are not run with the race detector.",
 ["app/app.go", K+"keeper.go", K+"grpc_query.go", A+"util.go"], [("per-height query contexts", "base application"), ("stateless keeper", K+"keeper.go")], [], ["race detector reports", "answers of concurrent readers, judged against the committed heights"])

prop("C21", "Fees and rounding surplus go exactly where they should",
 "Creating a pair or a pool charges exactly the configured fee to the creator and credits it to the fee collector, and nothing else charges that fee. The rounding surplus of a batch is credited to the dust collector, is never negative and stays below a few smallest quote units per fill.",
 H, HT, "Tests assert one fee and one dust amount.",
 [K+"pair.go", K+"pool.go", K+"swap.go", A+"match.go"], [("fees", K+"pair.go CreatePair; "+K+"pool.go CreatePool"), ("surplus", A+"match.go quote difference; "+K+"swap.go ApplyMatchResult")], [], ["balances of the creator and of both collectors around every step"])

prop("C22", "Identifiers, pairs and pools are unique and limits are enforced",
 "Identifiers of pairs, pools, orders and requests are never reused and grow by one; a denomination pair exists at most once per direction, every pool has its own reserve account and share coin, at most one open basic pool exists per pair and the number of open pools per pair never exceeds the configured maximum. Creations within the limits are not refused on account of them, and closed pools accept no deposits, withdrawals or trades and never reopen.",
 H, HT, "Tests create two or three objects; reuse and limit errors appear after closings and re-creations.",
 [K+"pair.go", K+"pool.go", K+"store.go", T+"keys.go"], [("id counters", K+"pair.go, "+K+"pool.go getNext*Id"), ("limits", K+"pool.go ValidateMsgCreatePool, ValidateMsgCreateRangedPool")], [("counters", "last pair, pool, order, request ids", K+"store.go")], ["all records after every step"])

prop("C24", "Emitted events account for every change",
 "The events of a step tell the whole story: for each filled order and each pool trade the reported amounts equal the real changes of the order record, reserves and balances, each finished order and request is reported exactly once with its final amounts and status, and each creation or cancellation is reported with the right identifiers.",
 H, HT, "No test reads events.",
 [K+"swap.go", K+"pool.go", K+"pair.go", T+"events.go"], [("event emission", K+"swap.go, "+K+"pool.go")], [], ["event log of every step against the state difference of that step"])

prop("C25", "Pools quote only what they own, on the right side of their price",
 "The orders a pool places in a price band are on the grid and inside the band, at most one per level (two at the edge of the band when the pool's price lies beyond it), buy at or below and sell at or above the pool's price, never add up to more quote or base coins than its reserves, and are never dust. Its depth functions never exceed the reserves, are zero on the wrong side of its price, and fall (rise) with rising price; quoting does not change the pool.",
 ["inputs"], "for every basic and ranged pool, reserve size including nearly empty ones, band and precision", "Tests list the quotes of a few pools.",
 [A+"pool.go", T+"pool.go"], [("quotes", A+"pool.go PoolBuyOrders, PoolSellOrders"), ("depth", A+"pool.go BuyAmountOver, SellAmountUnder, BuyAmountTo, SellAmountTo")], [], ["quotes and depths of generated pools"])

prop("C26", "Placing orders and requests costs the configured extra gas",
 "Every accepted order consumes the configured extra order gas, every deposit and withdrawal request its own configured extra, on top of the work done, so that a transaction whose gas limit does not cover it fails without effect.",
 ["histories", "configurations"], "for every message of these kinds and every parameter setting", "No test looks at gas.",
 [K+"msg_server.go", K+"swap.go", K+"pool.go"], [("extra gas", K+"params.go Get*ExtraGas")], [], ["gas used by messages under different settings"])

prop("C27", "Queries never change state",
 "Answering any query, simulation or mempool check, however malformed, leaves the committed state and the outcome of all later blocks unchanged and does not bring down the node.",
 H, "for every query with any argument, at any point of any history", "Tests call queries with well-formed arguments and never look at the state afterwards.",
 [K+"grpc_query.go", "app/app.go"], [("read-only query contexts", K+"grpc_query.go")], [], ["application hash with and without hostile query traffic", "store contents around each query"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
