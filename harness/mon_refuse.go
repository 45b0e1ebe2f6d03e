package main

import (
	"errors"
	"time"

	sm "cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/types"
)

// refused judges a rejected message: when nothing the properties name stands in
// its way it must have been accepted. The reference is conservative, it gives
// no verdict on extreme amounts and prices.
func (m *DexMon) refused(st *Step, pre *Snap) {
	must, prop := m.mustAccept(st, pre)
	if !must {
		m.R.Count("refusals_explained", 1)
		return
	}
	what := "error " + errText(st)
	m.v(prop, "refused:"+msgName(st.Msg), "a valid message was refused with %s: %s", what, st)
	if prop == "C06" {
		m.v("C16", "refused:"+msgName(st.Msg), "the owner's cancellation was refused with %s: %s", what, st)
	}
}

func errText(st *Step) string {
	if st.Err != nil {
		return clip(st.Err.Error(), 300)
	}
	return "panic " + clip(firstLine(st.Panic), 300)
}

func plain(a sm.Int) bool { return !a.IsNil() && !a.IsNegative() && a.LT(sm.NewIntWithDecimal(1, 30)) }

func plainPrice(p sm.LegacyDec) bool {
	return !p.IsNil() && p.GT(sm.LegacyNewDecWithPrec(1, 12)) && p.LT(sm.LegacyNewDecFromInt(sm.NewIntWithDecimal(1, 18)))
}

func (m *DexMon) covers(pre *Snap, who string, cs ...sdk.Coins) bool {
	sum := sdk.NewCoins()
	for _, c := range cs {
		if c.Validate() != nil {
			return false
		}
		sum = sum.Add(c...)
	}
	for _, c := range sum {
		if pre.B(who, c.Denom).LT(c.Amount) {
			return false
		}
	}
	return true
}

func (m *DexMon) mustAccept(st *Step, pre *Snap) (bool, string) {
	if !m.UserSet[st.Signer] && st.Signer != govAuthority().String() {
		return false, ""
	}
	if vb, ok := st.Msg.(validateBasic); ok && vb.ValidateBasic() != nil {
		return false, "" // the stateless rules are judged on their own
	}
	p := pre.Params
	switch msg := st.Msg.(type) {
	case *types.MsgCreatePair:
		for _, x := range pre.Pairs {
			if x.BaseCoinDenom == msg.BaseCoinDenom && x.QuoteCoinDenom == msg.QuoteCoinDenom {
				return false, ""
			}
		}
		return m.covers(pre, st.Signer, p.PairCreationFee), "C22"
	case *types.MsgCreatePool:
		pair, ok := pre.Pairs[msg.PairId]
		if !ok || !m.covers(pre, st.Signer, p.PoolCreationFee, msg.DepositCoins) {
			return false, ""
		}
		x, y := msg.DepositCoins.AmountOf(pair.QuoteCoinDenom), msg.DepositCoins.AmountOf(pair.BaseCoinDenom)
		if !x.IsPositive() || !y.IsPositive() || x.LT(p.MinInitialDepositAmount) || y.LT(p.MinInitialDepositAmount) ||
			!plain(x) || !plain(y) || !plainPrice(sm.LegacyNewDecFromInt(x).QuoInt(y)) {
			return false, ""
		}
		active, basic := activePools(pre, msg.PairId)
		return !basic && active < p.MaxNumActivePoolsPerPair, "C22"
	case *types.MsgCreateRangedPool:
		pair, ok := pre.Pairs[msg.PairId]
		if !ok || !m.covers(pre, st.Signer, p.PoolCreationFee, msg.DepositCoins) {
			return false, ""
		}
		x, y := msg.DepositCoins.AmountOf(pair.QuoteCoinDenom), msg.DepositCoins.AmountOf(pair.BaseCoinDenom)
		prec := int(p.TickPrecision)
		if !plain(x) || !plain(y) || x.Add(y).IsZero() || len(msg.DepositCoins) == 1 && !x.Add(y).IsPositive() {
			return false, ""
		}
		for _, c := range msg.DepositCoins {
			if c.Denom != pair.BaseCoinDenom && c.Denom != pair.QuoteCoinDenom {
				return false, ""
			}
		}
		for _, d := range []sm.LegacyDec{msg.MinPrice, msg.MaxPrice, msg.InitialPrice} {
			if !plainPrice(d) || !refIsTick(d, prec) {
				return false, ""
			}
		}
		if msg.MinPrice.LT(refLowestTick(prec)) || msg.InitialPrice.LT(msg.MinPrice) || msg.InitialPrice.GT(msg.MaxPrice) ||
			msg.MaxPrice.LT(msg.MinPrice.Mul(dec("1.00100001"))) {
			return false, ""
		}
		min := p.MinInitialDepositAmount
		switch {
		case msg.InitialPrice.Equal(msg.MinPrice):
			if y.LT(min) || !y.IsPositive() {
				return false, ""
			}
		case msg.InitialPrice.Equal(msg.MaxPrice):
			if x.LT(min) || !x.IsPositive() {
				return false, ""
			}
		default:
			// one of the two coins is taken in full
			if x.LT(min) || y.LT(min) || x.LT(sm.NewInt(1000000)) || y.LT(sm.NewInt(1000000)) {
				return false, ""
			}
		}
		active, _ := activePools(pre, msg.PairId)
		return active < p.MaxNumActivePoolsPerPair, "C22"
	case *types.MsgDeposit:
		pool, ok := pre.Pools[msg.PoolId]
		if !ok || pool.Disabled || !m.covers(pre, st.Signer, msg.DepositCoins) {
			return false, ""
		}
		if pool.Type == types.PoolTypeBasic && len(msg.DepositCoins) != 2 {
			return false, ""
		}
		pair := pre.Pairs[pool.PairId]
		if hugePool(pre, pair.Id) {
			return false, ""
		}
		for _, c := range msg.DepositCoins {
			if c.Denom != pair.BaseCoinDenom && c.Denom != pair.QuoteCoinDenom {
				return false, ""
			}
			if !plain(c.Amount) || !plain(pre.B(pool.ReserveAddress, c.Denom)) {
				return false, ""
			}
		}
		return true, "C05"
	case *types.MsgWithdraw:
		pool, ok := pre.Pools[msg.PoolId]
		if !ok || pool.Disabled || msg.PoolCoin.Denom != pool.PoolCoinDenom || !m.covers(pre, st.Signer, sdk.NewCoins(msg.PoolCoin)) {
			return false, ""
		}
		return true, "C05"
	case *types.MsgLimitOrder:
		return m.mustAcceptOrder(st, pre, msg.PairId, msg.Direction, msg.OfferCoin, msg.DemandCoinDenom, &msg.Price, msg.Amount, msg.OrderLifespan, false)
	case *types.MsgMMOrder:
		return m.mustAcceptOrder(st, pre, msg.PairId, msg.Direction, msg.OfferCoin, msg.DemandCoinDenom, &msg.Price, msg.Amount, msg.OrderLifespan, true)
	case *types.MsgMarketOrder:
		return m.mustAcceptOrder(st, pre, msg.PairId, msg.Direction, msg.OfferCoin, msg.DemandCoinDenom, nil, msg.Amount, msg.OrderLifespan, false)
	case *types.MsgCancelOrder:
		o, ok := pre.Ord[ID2{msg.PairId, msg.OrderId}]
		if !ok || o.Orderer != st.Signer || !ordLive(o.Status) || o.BatchId >= pre.Pairs[msg.PairId].CurrentBatchId {
			return false, ""
		}
		return true, "C06"
	case *types.MsgCancelAllOrders:
		for _, id := range msg.PairIds {
			if _, ok := pre.Pairs[id]; !ok {
				return false, ""
			}
		}
		return true, "C06"
	case *types.MsgUpdateParams:
		return st.Signer == govAuthority().String() && refParamsInvalid(msg.Params) == "" && msg.Params.MinInitialDepositAmount.IsPositive(), "C17"
	}
	return false, ""
}

func activePools(s *Snap, pid uint64) (active uint32, basic bool) {
	for _, q := range s.Pools {
		if q.PairId == pid && !q.Disabled {
			active++
			basic = basic || q.Type == types.PoolTypeBasic
		}
	}
	return
}

func (m *DexMon) mustAcceptOrder(st *Step, pre *Snap, pid uint64, dir types.OrderDirection, offer sdk.Coin, demand string, price *sm.LegacyDec, amt sm.Int, life time.Duration, mm bool) (bool, string) {
	pair, ok := pre.Pairs[pid]
	buy := dir == types.OrderDirectionBuy
	if !ok || life > pre.Params.MaxOrderLifespan || !plain(amt) || !plain(offer.Amount) || !m.covers(pre, st.Signer, sdk.NewCoins(offer)) {
		return false, ""
	}
	bd, qd := pair.BaseCoinDenom, pair.QuoteCoinDenom
	if buy && (offer.Denom != qd || demand != bd) || !buy && (offer.Denom != bd || demand != qd) {
		return false, ""
	}
	prec := int(pre.Params.TickPrecision)
	lo, hi := refLowestTick(prec), sm.LegacyNewDecFromInt(sm.NewIntWithDecimal(1, 18))
	if pair.LastPrice != nil {
		if !plainPrice(*pair.LastPrice) {
			return false, ""
		}
		lo, hi = refBand(*pair.LastPrice, pre.Params.MaxPriceLimitRatio, prec)
	}
	var at sm.LegacyDec
	switch {
	case price == nil:
		if pair.LastPrice == nil {
			return false, ""
		}
		at = lo
		if buy {
			at = hi
		}
	case price.LT(lo) || price.GT(hi):
		return false, ""
	case buy:
		at = refDownTick(*price, prec)
	default:
		at = refUpTick(*price, prec)
	}
	if !plainPrice(at) || offer.Amount.LT(refOffer(buy, at, amt)) || amt.LT(sm.NewInt(100)) || at.MulInt(amt).LT(sm.LegacyNewDec(100)) {
		return false, ""
	}
	prop := "C22"
	if mm {
		if pre.MM[mmKey(st.Signer, pid)] >= pre.Params.MaxNumMarketMakingOrdersPerPair {
			return false, ""
		}
		prop = "C07"
	}
	if errors.Is(st.Err, types.ErrPriceOutOfRange) || errors.Is(st.Err, types.ErrNoLastPrice) || errors.Is(st.Err, types.ErrInsufficientOfferCoin) {
		prop = "C18"
	}
	return true, prop
}
