From eb20b2e51e0cda47da0f7a5c1a88ac7486d5c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 01/18] fix: match the same amount of base coin on both sides
 of the order book

A sell order which would receive nothing is left out when a price level's
amount is distributed, and the remaining sell orders of the level may not be
able to take the whole amount. The buy orders were still filled by the whole
amount, so more base coins were bought than sold and the pair escrow was short
of coins, which could halt the chain at the end of the block.
---
 x/dex/amm/match.go | 51 +++++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/x/dex/amm/match.go b/x/dex/amm/match.go
index af58cfb..a33ed3b 100644
--- a/x/dex/amm/match.go
+++ b/x/dex/amm/match.go
@@ -181,8 +181,8 @@ func (ob *OrderBook) MatchAtSinglePrice(matchPrice sdk.LegacyDec) (quoteCoinDiff
 		return sdk.Int{}, false
 	}
 	quoteCoinDiff = sdk.ZeroInt()
-	distributeToTicks := func(ticks []*orderBookTick) {
-		remainingAmt := matchableAmt
+	distributeToTicks := func(ticks []*orderBookTick, amt sdk.Int) (matchedAmt sdk.Int) {
+		remainingAmt := amt
 		for _, tick := range ticks {
 			tickAmt := TotalMatchableAmount(tick.orders, matchPrice)
 			if tickAmt.LTE(remainingAmt) {
@@ -192,13 +192,22 @@ func (ob *OrderBook) MatchAtSinglePrice(matchPrice sdk.LegacyDec) (quoteCoinDiff
 					break
 				}
 			} else {
-				quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(tick, remainingAmt, matchPrice))
+				tickMatchedAmt, diff := DistributeOrderAmountToTick(tick, remainingAmt, matchPrice)
+				quoteCoinDiff = quoteCoinDiff.Add(diff)
+				remainingAmt = remainingAmt.Sub(tickMatchedAmt)
 				break
 			}
 		}
+		return amt.Sub(remainingAmt)
 	}
-	distributeToTicks(ob.buys.ticks)
-	distributeToTicks(ob.sells.ticks)
+	// Sell orders may not be able to take all the amount, since a sell order
+	// which would receive nothing isn't matched. So distribute the amount to
+	// the sell orders first and then match the same amount of buy orders.
+	soldAmt := distributeToTicks(ob.sells.ticks, matchableAmt)
+	if !soldAmt.IsPositive() {
+		return sdk.Int{}, false
+	}
+	distributeToTicks(ob.buys.ticks, soldAmt)
 	matched = true
 	return
 }
@@ -281,17 +290,20 @@ func (ob *OrderBook) Match(lastPrice sdk.LegacyDec) (matchPrice sdk.LegacyDec, q
 			continue
 		}
 		if buyTickOpenAmt.LTE(sellTickOpenAmt) {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(buyTick, buyTickOpenAmt, p))
 			bi++
-		} else {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(buyTick, sellTickOpenAmt, p))
 		}
 		if sellTickOpenAmt.LTE(buyTickOpenAmt) {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(sellTick, sellTickOpenAmt, p))
 			si++
-		} else {
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToTick(sellTick, buyTickOpenAmt, p))
 		}
+		// The buy orders get exactly the amount the sell orders can take, see
+		// MatchAtSinglePrice.
+		soldAmt, diff := DistributeOrderAmountToTick(sellTick, sdk.MinInt(buyTickOpenAmt, sellTickOpenAmt), p)
+		if !soldAmt.IsPositive() {
+			continue
+		}
+		quoteCoinDiff = quoteCoinDiff.Add(diff)
+		_, diff = DistributeOrderAmountToTick(buyTick, soldAmt, p)
+		quoteCoinDiff = quoteCoinDiff.Add(diff)
 		matchPrice = p
 		matched = true
 	}
@@ -302,9 +314,11 @@ func (ob *OrderBook) Match(lastPrice sdk.LegacyDec) (matchPrice sdk.LegacyDec, q
 // at the tick.
 // Orders with higher priority(have lower batch id) get matched first,
 // then the remaining amount is distributed to the remaining orders.
-func DistributeOrderAmountToTick(tick *orderBookTick, amt sdk.Int, price sdk.LegacyDec) (quoteCoinDiff sdk.Int) {
+// It returns the amount actually distributed, which can be less than the given
+// amount when the orders are sell orders.
+func DistributeOrderAmountToTick(tick *orderBookTick, amt sdk.Int, price sdk.LegacyDec) (matchedAmt, quoteCoinDiff sdk.Int) {
 	remainingAmt := amt
-	quoteCoinDiff = sdk.ZeroInt()
+	matchedAmt, quoteCoinDiff = sdk.ZeroInt(), sdk.ZeroInt()
 	groups := GroupOrdersByBatchId(tick.orders)
 	for _, group := range groups {
 		openAmt := TotalMatchableAmount(group.Orders, price)
@@ -313,10 +327,13 @@ func DistributeOrderAmountToTick(tick *orderBookTick, amt sdk.Int, price sdk.Leg
 		}
 		if remainingAmt.GTE(openAmt) {
 			quoteCoinDiff = quoteCoinDiff.Add(FulfillOrders(group.Orders, price))
+			matchedAmt = matchedAmt.Add(openAmt)
 			remainingAmt = remainingAmt.Sub(openAmt)
 		} else {
 			SortOrders(group.Orders)
-			quoteCoinDiff = quoteCoinDiff.Add(DistributeOrderAmountToOrders(group.Orders, remainingAmt, price))
+			groupMatchedAmt, diff := DistributeOrderAmountToOrders(group.Orders, remainingAmt, price)
+			matchedAmt = matchedAmt.Add(groupMatchedAmt)
+			quoteCoinDiff = quoteCoinDiff.Add(diff)
 			remainingAmt = sdk.ZeroInt()
 		}
 		if remainingAmt.IsZero() {
@@ -334,7 +351,9 @@ func DistributeOrderAmountToTick(tick *orderBookTick, amt sdk.Int, price sdk.Leg
 // to the orders again, by priority.
 // This time, the proportion is not considered and each order takes up
 // the amount as much as possible.
-func DistributeOrderAmountToOrders(orders []Order, amt sdk.Int, price sdk.LegacyDec) (quoteCoinDiff sdk.Int) {
+// Sell orders which would receive nothing are left out, so the amount actually
+// distributed, which is returned, can be less than the given amount.
+func DistributeOrderAmountToOrders(orders []Order, amt sdk.Int, price sdk.LegacyDec) (matchedAmt, quoteCoinDiff sdk.Int) {
 	totalAmt := TotalAmount(orders)
 	totalMatchedAmt := sdk.ZeroInt()
 	matchedAmtByOrder := map[Order]sdk.Int{}
@@ -393,5 +412,5 @@ func DistributeOrderAmountToOrders(orders []Order, amt sdk.Int, price sdk.Legacy
 	for order, matchedAmt := range matchedAmtByOrder {
 		quoteCoinDiff = quoteCoinDiff.Add(FillOrder(order, matchedAmt, price))
 	}
-	return
+	return amt.Sub(remainingAmt), quoteCoinDiff
 }
-- 
2.43.0


From 4afe43e47a5bf28803ec7f76cb834727f7e70720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 02/18] fix: take the exact share of the reserves for minted
 pool coins

---
 x/dex/amm/pool.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/x/dex/amm/pool.go b/x/dex/amm/pool.go
index de2e851..d867d39 100644
--- a/x/dex/amm/pool.go
+++ b/x/dex/amm/pool.go
@@ -480,27 +480,25 @@ func Deposit(rx, ry, ps, x, y sdk.Int) (ax, ay, pc sdk.Int) {
 	// from depositor and mint as little coins as possible.
 
 	utils.SafeMath(func() {
-		rx, ry := rx.ToLegacyDec(), ry.ToLegacyDec()
-		ps := ps.ToLegacyDec()
-
 		// pc = floor(ps * min(x / rx, y / ry))
 		var ratio sdk.LegacyDec
 		switch {
 		case rx.IsZero():
-			ratio = y.ToLegacyDec().QuoTruncate(ry)
+			ratio = y.ToLegacyDec().QuoTruncate(ry.ToLegacyDec())
 		case ry.IsZero():
-			ratio = x.ToLegacyDec().QuoTruncate(rx)
+			ratio = x.ToLegacyDec().QuoTruncate(rx.ToLegacyDec())
 		default:
 			ratio = sdk.LegacyMinDec(
-				x.ToLegacyDec().QuoTruncate(rx),
-				y.ToLegacyDec().QuoTruncate(ry),
+				x.ToLegacyDec().QuoTruncate(rx.ToLegacyDec()),
+				y.ToLegacyDec().QuoTruncate(ry.ToLegacyDec()),
 			)
 		}
-		pc = ps.MulTruncate(ratio).TruncateInt()
+		pc = ps.ToLegacyDec().MulTruncate(ratio).TruncateInt()
 
-		mintProportion := pc.ToLegacyDec().Quo(ps)       // pc / ps
-		ax = rx.Mul(mintProportion).Ceil().TruncateInt() // ceil(rx * mintProportion)
-		ay = ry.Mul(mintProportion).Ceil().TruncateInt() // ceil(ry * mintProportion)
+		// Rounding pc / ps to a decimal first could ask for less than the
+		// minted share of the reserves.
+		ax = ceilMulQuo(rx, pc, ps) // ceil(rx * pc / ps)
+		ay = ceilMulQuo(ry, pc, ps) // ceil(ry * pc / ps)
 	}, func() {
 		ax, ay, pc = sdk.ZeroInt(), sdk.ZeroInt(), sdk.ZeroInt()
 	})
@@ -508,6 +506,15 @@ func Deposit(rx, ry, ps, x, y sdk.Int) (ax, ay, pc sdk.Int) {
 	return
 }
 
+// ceilMulQuo returns ceil(a * b / c) for non-negative a, b and positive c.
+func ceilMulQuo(a, b, c sdk.Int) sdk.Int {
+	q, r := new(big.Int).QuoRem(new(big.Int).Mul(a.BigInt(), b.BigInt()), c.BigInt(), new(big.Int))
+	if r.Sign() > 0 {
+		q.Add(q, big.NewInt(1))
+	}
+	return sdk.NewIntFromBigInt(q)
+}
+
 // Withdraw returns withdrawn x and y coin amount when someone withdraws
 // pc pool coin.
 // Withdraw also takes care of the fee rate.
-- 
2.43.0


From 23b7b8741784735045e066140a30116c061a5f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 03/18] fix: keep the governance authority and the logger in
 the dex keeper

---
 x/dex/keeper/keeper.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/dex/keeper/keeper.go b/x/dex/keeper/keeper.go
index a784a46..b806e6e 100644
--- a/x/dex/keeper/keeper.go
+++ b/x/dex/keeper/keeper.go
@@ -46,6 +46,8 @@ func NewKeeper(
 	return Keeper{
 		cdc:           cdc,
 		storeService:  storeService,
+		logger:        logger,
+		authority:     authority,
 		paramSpace:    paramSpace,
 		accountKeeper: accountKeeper,
 		bankKeeper:    bankKeeper,
-- 
2.43.0


From 85bbd58a810f682aad9c778347be1e015c920d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 04/18] fix: reject invalid parameters instead of panicking
 while storing them

---
 x/dex/keeper/msg_server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/dex/keeper/msg_server.go b/x/dex/keeper/msg_server.go
index 2f08ca8..2c826b3 100644
--- a/x/dex/keeper/msg_server.go
+++ b/x/dex/keeper/msg_server.go
@@ -5,6 +5,7 @@ import (
 
 	errorsmod "cosmossdk.io/errors"
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	sdkerrors "github.com/cosmos/cosmos-sdk/types/errors"
 
 	"defund/x/dex/types"
 )
@@ -135,6 +136,10 @@ func (k msgServer) UpdateParams(goCtx context.Context, req *types.MsgUpdateParam
 		return nil, errorsmod.Wrapf(types.ErrInvalidSigner, "invalid authority; expected %s, got %s", k.GetAuthority(), req.Authority)
 	}
 
+	if err := req.Params.Validate(); err != nil {
+		return nil, errorsmod.Wrap(sdkerrors.ErrInvalidRequest, err.Error())
+	}
+
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	k.SetParams(ctx, req.Params)
 
-- 
2.43.0


From 07ff026b82e06b5ac286b629a08d05039d03574d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 05/18] fix: reject parameters above their meaningful range

---
 x/dex/types/params.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/x/dex/types/params.go b/x/dex/types/params.go
index 140c184..a69e3c4 100644
--- a/x/dex/types/params.go
+++ b/x/dex/types/params.go
@@ -170,11 +170,15 @@ func validateBatchSize(i interface{}) error {
 }
 
 func validateTickPrecision(i interface{}) error {
-	_, ok := i.(uint32)
+	v, ok := i.(uint32)
 	if !ok {
 		return fmt.Errorf("invalid parameter type: %T", i)
 	}
 
+	if v > math.LegacyPrecision {
+		return fmt.Errorf("tick precision must not exceed %d: %d", math.LegacyPrecision, v)
+	}
+
 	return nil
 }
 
@@ -253,6 +257,10 @@ func validateMinInitialDepositAmount(i interface{}) error {
 		return fmt.Errorf("invalid parameter type: %T", i)
 	}
 
+	if v.IsNil() {
+		return fmt.Errorf("minimum initial deposit amount must not be nil")
+	}
+
 	if v.IsNegative() {
 		return fmt.Errorf("minimum initial deposit amount must not be negative: %s", v)
 	}
@@ -266,10 +274,18 @@ func validateMaxPriceLimitRatio(i interface{}) error {
 		return fmt.Errorf("invalid parameter type: %T", i)
 	}
 
+	if v.IsNil() {
+		return fmt.Errorf("max price limit ratio must not be nil")
+	}
+
 	if v.IsNegative() {
 		return fmt.Errorf("max price limit ratio must not be negative: %s", v)
 	}
 
+	if v.GTE(math.LegacyOneDec()) {
+		return fmt.Errorf("max price limit ratio must be less than 1: %s", v)
+	}
+
 	return nil
 }
 
@@ -318,10 +334,18 @@ func validateSwapFeeRate(i interface{}) error {
 		return fmt.Errorf("invalid parameter type: %T", i)
 	}
 
+	if v.IsNil() {
+		return fmt.Errorf("swap fee rate must not be nil")
+	}
+
 	if v.IsNegative() {
 		return fmt.Errorf("swap fee rate must not be negative: %s", v)
 	}
 
+	if v.GT(math.LegacyOneDec()) {
+		return fmt.Errorf("swap fee rate must be at most 1: %s", v)
+	}
+
 	return nil
 }
 
@@ -331,10 +355,18 @@ func validateWithdrawFeeRate(i interface{}) error {
 		return fmt.Errorf("invalid parameter type: %T", i)
 	}
 
+	if v.IsNil() {
+		return fmt.Errorf("withdraw fee rate must not be nil")
+	}
+
 	if v.IsNegative() {
 		return fmt.Errorf("withdraw fee rate must not be negative: %s", v)
 	}
 
+	if v.GT(math.LegacyOneDec()) {
+		return fmt.Errorf("withdraw fee rate must be at most 1: %s", v)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 127489529a63874e8f82665112b42b5bd74efb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:00 +0000
Subject: [PATCH 06/18] fix: import and export the whole dex state at genesis

---
 x/dex/module/genesis.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/x/dex/module/genesis.go b/x/dex/module/genesis.go
index 1686aed..43bb530 100644
--- a/x/dex/module/genesis.go
+++ b/x/dex/module/genesis.go
@@ -10,15 +10,12 @@ import (
 // InitGenesis initializes the module's state from a provided genesis state.
 func InitGenesis(ctx sdk.Context, k keeper.Keeper, genState types.GenesisState) {
 	// this line is used by starport scaffolding # genesis/module/init
-	k.SetParams(ctx, genState.Params)
+	k.InitGenesis(ctx, genState)
 }
 
 // ExportGenesis returns the module's exported genesis.
 func ExportGenesis(ctx sdk.Context, k keeper.Keeper) *types.GenesisState {
-	genesis := types.DefaultGenesis()
-	genesis.Params = k.GetParams(ctx)
-
 	// this line is used by starport scaffolding # genesis/module/export
 
-	return genesis
+	return k.ExportGenesis(ctx)
 }
-- 
2.43.0


From ed1baed04f8c158db59ebd0ee4e4cde741cc5215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 07/18] fix: accept pending single-sided deposits at genesis

---
 x/dex/types/genesis.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x/dex/types/genesis.go b/x/dex/types/genesis.go
index 024ccab..c6d12f6 100644
--- a/x/dex/types/genesis.go
+++ b/x/dex/types/genesis.go
@@ -67,10 +67,15 @@ func (genState GenesisState) Validate() error {
 			return fmt.Errorf("deposit request at index %d has wrong minted pool coin: %s", i, req.MintedPoolCoin)
 		}
 		pair := pairMap[pool.PairId]
-		if req.DepositCoins.AmountOf(pair.BaseCoinDenom).IsZero() ||
-			req.DepositCoins.AmountOf(pair.QuoteCoinDenom).IsZero() {
+		// Ranged pools accept single-sided deposits.
+		if pool.Type == PoolTypeBasic && len(req.DepositCoins) != 2 {
 			return fmt.Errorf("deposit request at index %d has wrong deposit coins: %s", i, req.DepositCoins)
 		}
+		for _, coin := range req.DepositCoins {
+			if coin.Denom != pair.BaseCoinDenom && coin.Denom != pair.QuoteCoinDenom {
+				return fmt.Errorf("deposit request at index %d has wrong deposit coins: %s", i, req.DepositCoins)
+			}
+		}
 		if set, ok := depositReqSet[req.PoolId]; ok {
 			if _, ok := set[req.Id]; ok {
 				return fmt.Errorf("deposit request at index %d has a duplicate id: %d", i, req.Id)
-- 
2.43.0


From 3d523d650b461e03d0aad3e5a0a0132c61b82517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 08/18] fix: parse pair index keys of long denominations

---
 x/dex/types/keys.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/dex/types/keys.go b/x/dex/types/keys.go
index aa2d840..5d2a3cd 100644
--- a/x/dex/types/keys.go
+++ b/x/dex/types/keys.go
@@ -158,9 +158,10 @@ func ParsePairsByDenomsIndexKey(key []byte) (denomA, denomB string, pairId uint6
 		panic("key does not have proper prefix")
 	}
 
-	denomALen := key[1]
+	// lengths are kept as ints: their sum can exceed a byte
+	denomALen := int(key[1])
 	denomA = string(key[2 : 2+denomALen])
-	denomBLen := key[2+denomALen]
+	denomBLen := int(key[2+denomALen])
 	denomB = string(key[3+denomALen : 3+denomALen+denomBLen])
 	pairId = sdk.BigEndianToUint64(key[3+denomALen+denomBLen:])
 
-- 
2.43.0


From 59d0532645e2207b60cc2473eb54eae7c640741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 09/18] fix: reject price unit powers which are not
 representable

---
 x/dex/keeper/grpc_query.go | 3 +++
 x/dex/types/orderbook.go   | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/x/dex/keeper/grpc_query.go b/x/dex/keeper/grpc_query.go
index 77afbfa..64903ca 100644
--- a/x/dex/keeper/grpc_query.go
+++ b/x/dex/keeper/grpc_query.go
@@ -519,6 +519,9 @@ func (k Keeper) OrderBooks(c context.Context, req *types.QueryOrderBooksRequest)
 		if _, ok := priceUnitPowerSet[p]; ok {
 			return nil, status.Errorf(codes.InvalidArgument, "duplicate price unit power: %d", p)
 		}
+		if p > types.MaxPriceUnitPower {
+			return nil, status.Errorf(codes.InvalidArgument, "price unit power must not exceed %d: %d", types.MaxPriceUnitPower, p)
+		}
 		priceUnitPowerSet[p] = struct{}{}
 	}
 
diff --git a/x/dex/types/orderbook.go b/x/dex/types/orderbook.go
index 1ff13d5..1201ae6 100644
--- a/x/dex/types/orderbook.go
+++ b/x/dex/types/orderbook.go
@@ -9,6 +9,10 @@ import (
 	"defund/x/dex/amm"
 )
 
+// MaxPriceUnitPower is the highest price unit power an order book can be
+// queried with; beyond it the price unit is not representable.
+const MaxPriceUnitPower = 30
+
 func OrderBookBasePrice(ov amm.OrderView, tickPrec int) (math.LegacyDec, bool) {
 	highestBuyPrice, foundHighestBuyPrice := ov.HighestBuyPrice()
 	lowestSellPrice, foundLowestSellPrice := ov.LowestSellPrice()
-- 
2.43.0


From edd0012e16d63136d362abccf2759202278924fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 10/18] fix: show an evenly crossed order book as matched

---
 x/dex/amm/view.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/x/dex/amm/view.go b/x/dex/amm/view.go
index 3d40472..a1662b8 100644
--- a/x/dex/amm/view.go
+++ b/x/dex/amm/view.go
@@ -67,9 +67,6 @@ func (view *OrderBookView) Match() {
 		return view.SellAmountUnder(view.sellAmtAccSums[i].price, true).GT(
 			view.BuyAmountOver(view.sellAmtAccSums[i].price, true))
 	})
-	if buyIdx == len(view.buyAmtAccSums) && sellIdx == len(view.sellAmtAccSums) {
-		return
-	}
 	matchAmt := sdk.ZeroInt()
 	if buyIdx > 0 {
 		matchAmt = view.buyAmtAccSums[buyIdx-1].sum
-- 
2.43.0


From d2bd46652fd9d1158640f62416fe8322e20556b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:01 +0000
Subject: [PATCH 11/18] fix: define the price of a ranged pool with vanishing
 reserves

---
 x/dex/amm/pool.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/dex/amm/pool.go b/x/dex/amm/pool.go
index d867d39..5d3d12e 100644
--- a/x/dex/amm/pool.go
+++ b/x/dex/amm/pool.go
@@ -332,6 +332,10 @@ func (pool *RangedPool) Price() sdk.LegacyDec {
 	if pool.rx.IsZero() && pool.ry.IsZero() {
 		panic("pool price is not defined for a depleted pool")
 	}
+	if pool.yComp.IsZero() {
+		// There's no y coin, and transY is too small to be represented.
+		return pool.maxPrice
+	}
 	return pool.xComp.Quo(pool.yComp) // (rx + transX) / (ry + transY)
 }
 
-- 
2.43.0


From 541a7111dc6259788a4c78742f4ccb78d1aae26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:08 +0000
Subject: [PATCH 12/18] fix: find the ticks of pool orders without visiting
 every tick

---
 x/dex/amm/pool.go | 27 ++++++++++++++--------
 x/dex/amm/util.go | 58 +++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 75 insertions(+), 10 deletions(-)

diff --git a/x/dex/amm/pool.go b/x/dex/amm/pool.go
index 5d3d12e..8fcb4b1 100644
--- a/x/dex/amm/pool.go
+++ b/x/dex/amm/pool.go
@@ -626,12 +626,15 @@ func PoolBuyOrders(pool Pool, orderer Orderer, lowestPrice, highestPrice sdk.Leg
 	}
 	tick := PriceToDownTick(sdk.LegacyMinDec(highestPrice, tmpPool.Price()), tickPrec)
 	for tick.GTE(lowestPrice) {
-		amt := tmpPool.BuyAmountOver(tick, true)
-		if amt.LT(MinCoinAmount) {
-			tick = DownTick(tick, tickPrec) // TODO: check if the tick is the lowest possible tick
-			continue
+		// Skip the ticks where there's not enough amount to buy.
+		var found bool
+		tick, found = findHighestTick(PriceToUpTick(lowestPrice, tickPrec), tick, tickPrec, func(tick sdk.LegacyDec) bool {
+			return tmpPool.BuyAmountOver(tick, true).GTE(MinCoinAmount)
+		})
+		if !found {
+			break
 		}
-		placeOrder(tick, amt, false)
+		placeOrder(tick, tmpPool.BuyAmountOver(tick, true), false)
 		rx, _ := tmpPool.Balances()
 		if !rx.IsPositive() {
 			break
@@ -667,12 +670,16 @@ func PoolSellOrders(pool Pool, orderer Orderer, lowestPrice, highestPrice sdk.Le
 	}
 	tick := PriceToUpTick(sdk.LegacyMaxDec(lowestPrice, tmpPool.Price()), tickPrec)
 	for tick.LTE(highestPrice) {
-		amt := tmpPool.SellAmountUnder(tick, true)
-		if amt.LT(MinCoinAmount) || tick.MulInt(amt).TruncateInt().IsZero() {
-			tick = UpTick(tick, tickPrec)
-			continue
+		// Skip the ticks where there's not enough amount to sell.
+		var found bool
+		tick, found = findLowestTick(tick, PriceToDownTick(highestPrice, tickPrec), tickPrec, func(tick sdk.LegacyDec) bool {
+			amt := tmpPool.SellAmountUnder(tick, true)
+			return amt.GTE(MinCoinAmount) && tick.MulInt(amt).TruncateInt().IsPositive()
+		})
+		if !found {
+			break
 		}
-		placeOrder(tick, amt, false)
+		placeOrder(tick, tmpPool.SellAmountUnder(tick, true), false)
 		_, ry := tmpPool.Balances()
 		if !ry.GT(MinCoinAmount) {
 			break
diff --git a/x/dex/amm/util.go b/x/dex/amm/util.go
index 6f914b3..194c8c3 100644
--- a/x/dex/amm/util.go
+++ b/x/dex/amm/util.go
@@ -161,3 +161,61 @@ func poolOrderPriceGapRatio(poolPrice, currentPrice sdk.LegacyDec) (r sdk.Legacy
 		return b4
 	}
 }
+
+// findHighestTick returns the highest tick between two ticks(inclusive) for
+// which f is true, where f must be true for every tick under such tick.
+func findHighestTick(lowestTick, highestTick sdk.LegacyDec, tickPrec int, f func(tick sdk.LegacyDec) bool) (tick sdk.LegacyDec, found bool) {
+	if lowestTick.GT(highestTick) {
+		return sdk.LegacyDec{}, false
+	}
+	if f(highestTick) {
+		return highestTick, true
+	}
+	if !f(lowestTick) {
+		return sdk.LegacyDec{}, false
+	}
+	// f(lowestTick) is always true and f(highestTick) is always false.
+	for {
+		tick = PriceToDownTick(lowestTick.Add(highestTick).QuoInt64(2), tickPrec)
+		if tick.LTE(lowestTick) {
+			tick = UpTick(lowestTick, tickPrec)
+			if tick.GTE(highestTick) {
+				return lowestTick, true
+			}
+		}
+		if f(tick) {
+			lowestTick = tick
+		} else {
+			highestTick = tick
+		}
+	}
+}
+
+// findLowestTick returns the lowest tick between two ticks(inclusive) for
+// which f is true, where f must be true for every tick over such tick.
+func findLowestTick(lowestTick, highestTick sdk.LegacyDec, tickPrec int, f func(tick sdk.LegacyDec) bool) (tick sdk.LegacyDec, found bool) {
+	if lowestTick.GT(highestTick) {
+		return sdk.LegacyDec{}, false
+	}
+	if f(lowestTick) {
+		return lowestTick, true
+	}
+	if !f(highestTick) {
+		return sdk.LegacyDec{}, false
+	}
+	// f(lowestTick) is always false and f(highestTick) is always true.
+	for {
+		tick = PriceToDownTick(lowestTick.Add(highestTick).QuoInt64(2), tickPrec)
+		if tick.LTE(lowestTick) {
+			tick = UpTick(lowestTick, tickPrec)
+			if tick.GTE(highestTick) {
+				return highestTick, true
+			}
+		}
+		if f(tick) {
+			highestTick = tick
+		} else {
+			lowestTick = tick
+		}
+	}
+}
-- 
2.43.0


From 5710f6f496ae536e56b0c0f4be38bc422ca974f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 13/18] fix: limit the tick precision to what tick indexes can
 represent

---
 x/dex/amm/amm.go      | 4 ++++
 x/dex/types/params.go | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/x/dex/amm/amm.go b/x/dex/amm/amm.go
index e95b8ba..0cfc521 100644
--- a/x/dex/amm/amm.go
+++ b/x/dex/amm/amm.go
@@ -13,3 +13,7 @@ var (
 	MaxPoolPrice               = math.NewIntWithDecimal(1, 20).ToLegacyDec() // 10^20
 	MinRangedPoolPriceGapRatio = math.LegacyNewDecWithPrec(1, 3)             // 0.001, 0.1%
 )
+
+// MaxTickPrecision is the maximum tick precision with which the index of every
+// tick can be represented as an int.
+const MaxTickPrecision = 16
diff --git a/x/dex/types/params.go b/x/dex/types/params.go
index a69e3c4..600610f 100644
--- a/x/dex/types/params.go
+++ b/x/dex/types/params.go
@@ -9,6 +9,8 @@ import (
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	types "github.com/cosmos/cosmos-sdk/types"
 	paramstypes "github.com/cosmos/cosmos-sdk/x/params/types"
+
+	"defund/x/dex/amm"
 )
 
 // Liquidity params default values
@@ -175,8 +177,8 @@ func validateTickPrecision(i interface{}) error {
 		return fmt.Errorf("invalid parameter type: %T", i)
 	}
 
-	if v > math.LegacyPrecision {
-		return fmt.Errorf("tick precision must not exceed %d: %d", math.LegacyPrecision, v)
+	if v > amm.MaxTickPrecision {
+		return fmt.Errorf("tick precision must not exceed %d: %d", amm.MaxTickPrecision, v)
 	}
 
 	return nil
-- 
2.43.0


From b26d6b5a5fb4c9d40779e58152727599f2d58ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:16 +0000
Subject: [PATCH 14/18] fix: pools with too large reserves must not halt the
 chain

---
 x/dex/keeper/grpc_query.go |  5 ++++-
 x/dex/keeper/pool.go       |  6 ++----
 x/dex/keeper/swap.go       | 13 ++++++++-----
 x/dex/types/pool.go        | 22 ++++++++++++++++++++++
 4 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/x/dex/keeper/grpc_query.go b/x/dex/keeper/grpc_query.go
index 64903ca..bacf52e 100644
--- a/x/dex/keeper/grpc_query.go
+++ b/x/dex/keeper/grpc_query.go
@@ -557,7 +557,10 @@ func (k Keeper) OrderBooks(c context.Context, req *types.QueryOrderBooksRequest)
 				return false, nil
 			}
 			rx, ry := k.getPoolBalances(ctx, pool, pair)
-			ammPool := pool.AMMPool(rx.Amount, ry.Amount, math.Int{})
+			ammPool, ok := pool.SafeAMMPool(rx.Amount, ry.Amount, math.Int{})
+			if !ok {
+				return false, nil
+			}
 			ob.AddOrder(amm.PoolOrders(ammPool, amm.DefaultOrderer, lowestPrice, highestPrice, int(tickPrec))...)
 			return false, nil
 		})
diff --git a/x/dex/keeper/pool.go b/x/dex/keeper/pool.go
index d1f879f..41eef49 100644
--- a/x/dex/keeper/pool.go
+++ b/x/dex/keeper/pool.go
@@ -406,8 +406,7 @@ func (k Keeper) ExecuteDepositRequest(ctx sdk.Context, req types.DepositRequest)
 	pair, _ := k.GetPair(ctx, pool.PairId)
 	rx, ry := k.getPoolBalances(ctx, pool, pair)
 	ps := k.GetPoolCoinSupply(ctx, pool)
-	ammPool := pool.AMMPool(rx.Amount, ry.Amount, ps)
-	if ammPool.IsDepleted() {
+	if pool.IsDepleted(rx.Amount, ry.Amount, ps) {
 		k.MarkPoolAsDisabled(ctx, pool)
 		if err := k.FinishDepositRequest(ctx, req, types.RequestStatusFailed); err != nil {
 			return err
@@ -492,8 +491,7 @@ func (k Keeper) ExecuteWithdrawRequest(ctx sdk.Context, req types.WithdrawReques
 	pair, _ := k.GetPair(ctx, pool.PairId)
 	rx, ry := k.getPoolBalances(ctx, pool, pair)
 	ps := k.GetPoolCoinSupply(ctx, pool)
-	ammPool := pool.AMMPool(rx.Amount, ry.Amount, ps)
-	if ammPool.IsDepleted() {
+	if pool.IsDepleted(rx.Amount, ry.Amount, ps) {
 		k.MarkPoolAsDisabled(ctx, pool)
 		if err := k.FinishWithdrawRequest(ctx, req, types.RequestStatusFailed); err != nil {
 			return err
diff --git a/x/dex/keeper/swap.go b/x/dex/keeper/swap.go
index a6db4f7..158365a 100644
--- a/x/dex/keeper/swap.go
+++ b/x/dex/keeper/swap.go
@@ -323,14 +323,17 @@ func (k Keeper) ExecuteMatching(ctx sdk.Context, pair types.Pair) error {
 		}
 		rx, ry := k.getPoolBalances(ctx, pool, pair)
 		ps := k.GetPoolCoinSupply(ctx, pool)
-		ammPool := types.NewPoolOrderer(
-			pool.AMMPool(rx.Amount, ry.Amount, ps),
-			pool.Id, pool.GetReserveAddressAcc(), pair.BaseCoinDenom, pair.QuoteCoinDenom)
-		if ammPool.IsDepleted() {
+		if pool.IsDepleted(rx.Amount, ry.Amount, ps) {
 			k.MarkPoolAsDisabled(ctx, pool)
 			return false, nil
 		}
-		pools = append(pools, ammPool)
+		ammPool, ok := pool.SafeAMMPool(rx.Amount, ry.Amount, ps)
+		if !ok {
+			// The pool can't quote any price, skip it.
+			return false, nil
+		}
+		pools = append(pools, types.NewPoolOrderer(
+			ammPool, pool.Id, pool.GetReserveAddressAcc(), pair.BaseCoinDenom, pair.QuoteCoinDenom))
 		return false, nil
 	})
 
diff --git a/x/dex/types/pool.go b/x/dex/types/pool.go
index 2c65e3c..dbc4b12 100644
--- a/x/dex/types/pool.go
+++ b/x/dex/types/pool.go
@@ -10,6 +10,7 @@ import (
 	"github.com/cosmos/cosmos-sdk/codec"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 
+	utils "defund/types"
 	"defund/x/dex/amm"
 )
 
@@ -114,6 +115,15 @@ func (pool Pool) Validate() error {
 	return nil
 }
 
+// IsDepleted returns whether the pool with given balances and pool coin supply
+// is depleted.
+func (pool Pool) IsDepleted(rx, ry, ps math.Int) bool {
+	if pool.Type == PoolTypeRanged {
+		return ps.IsZero() || (rx.IsZero() && ry.IsZero())
+	}
+	return ps.IsZero() || rx.IsZero() || ry.IsZero()
+}
+
 // AMMPool constructs amm.Pool interface from Pool.
 func (pool Pool) AMMPool(rx, ry, ps math.Int) amm.Pool {
 	switch pool.Type {
@@ -126,6 +136,18 @@ func (pool Pool) AMMPool(rx, ry, ps math.Int) amm.Pool {
 	}
 }
 
+// SafeAMMPool is like AMMPool, but returns false if the pool has reserves
+// that are too large for its price to be calculated.
+// The pool must not be depleted.
+func (pool Pool) SafeAMMPool(rx, ry, ps math.Int) (ammPool amm.Pool, ok bool) {
+	utils.SafeMath(func() {
+		ammPool = pool.AMMPool(rx, ry, ps)
+		_ = ammPool.Price()
+		ok = true
+	}, func() {})
+	return
+}
+
 type PoolOrderer struct {
 	amm.Pool
 	Id                            uint64
-- 
2.43.0


From fe20ad0ab7b7511fc146e3624b5639df81684cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:16 +0000
Subject: [PATCH 15/18] fix: find whether an order is worth less than one quote
 coin without overflow

---
 x/dex/amm/util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/dex/amm/util.go b/x/dex/amm/util.go
index 194c8c3..63439da 100644
--- a/x/dex/amm/util.go
+++ b/x/dex/amm/util.go
@@ -41,7 +41,9 @@ func MatchableAmount(order Order, price sdk.LegacyDec) (matchableAmt sdk.Int) {
 	case Sell:
 		matchableAmt = order.GetOpenAmount()
 	}
-	if price.MulInt(matchableAmt).TruncateInt().IsZero() {
+	// An order of which the amount is worth less than one quote coin can't be
+	// matched. It's only possible when the price is lower than 1.
+	if price.LT(oneDec) && price.MulInt(matchableAmt).TruncateInt().IsZero() {
 		matchableAmt = zeroInt
 	}
 	return
-- 
2.43.0


From 69ff3345d9bdaaf53ea2f08d2625a2ad6cd195d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:16 +0000
Subject: [PATCH 16/18] fix: proceed to the next tick when the gap between pool
 orders is too small

---
 x/dex/amm/pool.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x/dex/amm/pool.go b/x/dex/amm/pool.go
index 8fcb4b1..6410a09 100644
--- a/x/dex/amm/pool.go
+++ b/x/dex/amm/pool.go
@@ -639,7 +639,11 @@ func PoolBuyOrders(pool Pool, orderer Orderer, lowestPrice, highestPrice sdk.Leg
 		if !rx.IsPositive() {
 			break
 		}
-		tick = PriceToDownTick(tick.Mul(oneDec.Sub(poolOrderPriceGapRatio(poolPrice, tick))), tickPrec)
+		nextTick := PriceToDownTick(tick.Mul(oneDec.Sub(poolOrderPriceGapRatio(poolPrice, tick))), tickPrec)
+		if !nextTick.LT(tick) { // the gap is too small to be represented
+			nextTick = DownTick(tick, tickPrec)
+		}
+		tick = nextTick
 	}
 	return orders
 }
-- 
2.43.0


From aee5606b9f1b74865d542e9ba9e26b57e53717d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:16 +0000
Subject: [PATCH 17/18] fix: define the lowest price limit when it is too small
 to be represented

---
 x/dex/types/util.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/x/dex/types/util.go b/x/dex/types/util.go
index 970011c..d134dbe 100644
--- a/x/dex/types/util.go
+++ b/x/dex/types/util.go
@@ -65,8 +65,10 @@ func (op *BulkSendCoinsOperation) Run(ctx sdk.Context, bankKeeper BankKeeper) er
 func NewPoolResponse(pool Pool, rx, ry sdk.Coin, poolCoinSupply math.Int) PoolResponse {
 	var price *math.LegacyDec
 	if !pool.Disabled {
-		p := pool.AMMPool(rx.Amount, ry.Amount, math.Int{}).Price()
-		price = &p
+		if ammPool, ok := pool.SafeAMMPool(rx.Amount, ry.Amount, math.Int{}); ok {
+			p := ammPool.Price()
+			price = &p
+		}
 	}
 	return PoolResponse{
 		Type:           pool.Type,
@@ -98,7 +100,11 @@ func IsTooSmallOrderAmount(amt math.Int, price math.LegacyDec) bool {
 // PriceLimits returns the lowest and the highest price limits with given last price
 // and price limit ratio.
 func PriceLimits(lastPrice, priceLimitRatio math.LegacyDec, tickPrec int) (lowestPrice, highestPrice math.LegacyDec) {
-	lowestPrice = amm.PriceToUpTick(lastPrice.Mul(math.LegacyOneDec().Sub(priceLimitRatio)), tickPrec)
+	lowestPrice = lastPrice.Mul(math.LegacyOneDec().Sub(priceLimitRatio))
+	if lowestPrice.IsZero() { // too small to be represented
+		lowestPrice = math.LegacySmallestDec()
+	}
+	lowestPrice = amm.PriceToUpTick(lowestPrice, tickPrec)
 	highestPrice = amm.PriceToDownTick(lastPrice.Mul(math.LegacyOneDec().Add(priceLimitRatio)), tickPrec)
 	return
 }
-- 
2.43.0


From d2557f82a27c75030ddee24d92fafe3669474722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:28 +0000
Subject: [PATCH 18/18] fix: derive the translation of ranged pools with high
 prices from both reserves

---
 x/dex/amm/pool.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/dex/amm/pool.go b/x/dex/amm/pool.go
index 6410a09..3d47749 100644
--- a/x/dex/amm/pool.go
+++ b/x/dex/amm/pool.go
@@ -558,7 +558,7 @@ func DeriveTranslation(rx, ry sdk.Int, minPrice, maxPrice sdk.LegacyDec) (transX
 		sqrtP = sqrtL
 	case rxDec.Quo(ryDec).IsZero(): // y asset single pool
 		sqrtP = sqrtM
-	case ryDec.Quo(rxDec).IsZero(): // x asset single pool
+	case rxDec.Quo(ryDec).GT(maxPrice.MulInt64(1e18)): // x asset single pool
 		sqrtP = sqrtL
 	default: // normal pool
 		// sqrtXOverY = sqrt(rx/ry)
@@ -574,9 +574,9 @@ func DeriveTranslation(rx, ry sdk.Int, minPrice, maxPrice sdk.LegacyDec) (transX
 		// sqrtK = sqrt(K) = rx / (sqrt(P) - sqrt(M))
 		sqrtK = rxDec.Quo(sqrtP.Sub(sqrtM))
 	}
-	if !sqrtP.Equal(sqrtL) {
+	if invDiff := inv(sqrtP).Sub(inv(sqrtL)); !invDiff.IsZero() {
 		// sqrtK2 = sqrt(K') = ry / (1/sqrt(P) - 1/sqrt(L))
-		sqrtK2 := ryDec.Quo(inv(sqrtP).Sub(inv(sqrtL)))
+		sqrtK2 := ryDec.Quo(invDiff)
 		if sqrtK.IsNil() { // P == M
 			sqrtK = sqrtK2
 		} else {
-- 
2.43.0

