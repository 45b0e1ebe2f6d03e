package main

import (
	"fmt"
	"math/big"

	sm "cosmossdk.io/math"

	"defund/x/dex/amm"
	"defund/x/dex/types"
)

// The outcome of one pair's batch as the auction rules of ref_match.go give it,
// computed from the records alone. Only the quotes of the pools are taken from
// the pools (they are judged under C25).

type batchRef struct {
	orders  map[ID2]*rOrder
	pools   map[uint64][]*rOrder
	price   *big.Int
	matched bool
}

// poolQuote is what a pool offers at one price.
func quoteROrder(o amm.Order, pool uint64) *rOrder {
	return newROrder(o.GetDirection() == amm.Buy, o.GetPrice(), o.GetAmount(), o.GetOfferCoinAmount(), 0, true, pool)
}

func refBatch(st *Step, pre *Snap, id uint64) (b *batchRef, why string) {
	pair := pre.Pairs[id]
	prec := int(pre.Params.TickPrecision)
	b = &batchRef{orders: map[ID2]*rOrder{}, pools: map[uint64][]*rOrder{}}
	if pan := catch(func() { why = b.compute(st, pre, pair, prec) }); pan != "" {
		return nil, "panic " + firstLine(pan)
	}
	if why != "" {
		return nil, why
	}
	return b, ""
}

func (b *batchRef) compute(st *Step, pre *Snap, pair types.Pair, prec int) string {
	var all []*rOrder
	for _, k := range sortedID2(pre.Ord) {
		o := pre.Ord[k]
		if k[0] != pair.Id || !ordLive(o.Status) {
			continue
		}
		if o.Status != types.OrderStatusNotExecuted && !o.ExpireAt.After(st.Time) {
			continue // its lifetime is over before the batch
		}
		buy := o.Direction == types.OrderDirectionBuy
		amt := o.OpenAmount.BigInt()
		if buy { // what the money left can still pay for
			amt = bmin(amt, bdiv(bmul(o.RemainingOfferCoin.Amount.BigInt(), e18), o.Price.BigInt()))
		}
		if !plain(o.OpenAmount) || !plain(o.RemainingOfferCoin.Amount) || !plainPrice(o.Price) {
			return "extreme order"
		}
		ro := newROrder(buy, o.Price, sm.NewIntFromBigInt(amt), o.RemainingOfferCoin.Amount, o.BatchId, false, o.Id)
		b.orders[k] = ro
		all = append(all, ro)
	}
	type livePool struct {
		id uint64
		p  amm.Pool
	}
	var pools []livePool
	for _, pid := range pre.PoolIDs() {
		p := pre.Pools[pid]
		if p.PairId != pair.Id || p.Disabled {
			continue
		}
		x, y, s := pre.B(p.ReserveAddress, pair.QuoteCoinDenom), pre.B(p.ReserveAddress, pair.BaseCoinDenom), pre.Supply(p.PoolCoinDenom)
		if s.IsZero() || p.Type == types.PoolTypeBasic && (x.IsZero() || y.IsZero()) || x.IsZero() && y.IsZero() {
			continue
		}
		if !plain(x) || !plain(y) || !plain(s) {
			return "extreme pool"
		}
		pools = append(pools, livePool{pid, p.AMMPool(x, y, s)})
	}
	if len(all)+len(pools) == 0 {
		return ""
	}
	if pair.LastPrice != nil {
		if !plainPrice(*pair.LastPrice) {
			return "extreme price"
		}
		lo, hi := refBand(*pair.LastPrice, pre.Params.MaxPriceLimitRatio, prec)
		for _, lp := range pools {
			for _, o := range amm.PoolOrders(lp.p, amm.DefaultOrderer, lo, hi, prec) {
				ro := quoteROrder(o, lp.id)
				b.pools[lp.id] = append(b.pools[lp.id], ro)
				all = append(all, ro)
			}
		}
		b.price, b.matched = newRBook(all).run(pair.LastPrice.BigInt())
		return ""
	}
	// first batch: one price for supply and demand of users and pools
	users := all
	var hiBuy, loSell *big.Int
	see := func(buy bool, p *big.Int) {
		if buy && (hiBuy == nil || p.Cmp(hiBuy) > 0) {
			hiBuy = p
		}
		if !buy && (loSell == nil || p.Cmp(loSell) < 0) {
			loSell = p
		}
	}
	for _, o := range users {
		if o.can(o.price).Sign() > 0 {
			see(o.buy, o.price)
		}
	}
	for _, lp := range pools {
		if p, ok := lp.p.HighestBuyPrice(); ok {
			see(true, p.BigInt())
		}
		if p, ok := lp.p.LowestSellPrice(); ok {
			see(false, p.BigInt())
		}
	}
	if hiBuy == nil || loSell == nil || hiBuy.Cmp(loSell) < 0 {
		return ""
	}
	if loSell.Cmp(big.NewInt(1_000_000)) < 0 || !plainPrice(decOf(hiBuy)) {
		return "extreme price"
	}
	if refTickIdx(hiBuy, prec)-refTickIdx(loSell, prec) > 3000 {
		return "wide first batch"
	}
	dp := func(p *big.Int) sm.LegacyDec { return sm.LegacyNewDecFromBigIntWithPrec(p, 18) }
	c := rCurve{
		buyOver: func(p *big.Int) *big.Int {
			t := refSide(users, true, p)
			for _, lp := range pools {
				t.Add(t, lp.p.BuyAmountOver(dp(p), true).BigInt())
			}
			return t
		},
		sellUnder: func(p *big.Int) *big.Int {
			t := refSide(users, false, p)
			for _, lp := range pools {
				t.Add(t, lp.p.SellAmountUnder(dp(p), true).BigInt())
			}
			return t
		},
	}
	price, ok := refFirstPrice(c, loSell, hiBuy, prec)
	if !ok {
		return ""
	}
	for _, lp := range pools {
		if a := lp.p.BuyAmountOver(dp(price), true); a.IsPositive() {
			ro := newROrder(true, dp(price), a, refOffer(true, dp(price), a), 0, true, lp.id)
			b.pools[lp.id] = append(b.pools[lp.id], ro)
			all = append(all, ro)
		}
		if a := lp.p.SellAmountUnder(dp(price), true); a.IsPositive() {
			ro := newROrder(false, dp(price), a, a, 0, true, lp.id)
			b.pools[lp.id] = append(b.pools[lp.id], ro)
			all = append(all, ro)
		}
	}
	b.matched = newRBook(all).single(price)
	b.price = price
	return ""
}

// refCompare judges what really happened to the pair.
func (m *DexMon) refCompare(st *Step, pre, post *Snap, id uint64, fs []fill, swap Delta) {
	pair := pre.Pairs[id]
	b, why := refBatch(st, pre, id)
	if b == nil {
		m.R.Count("batches_without_reference", 1)
		_ = why
		return
	}
	m.R.Count("batches_compared", 1)
	fm := map[ID2]fill{}
	for _, f := range fs {
		fm[f.k] = f
	}
	show := func() string { return m.batchText(pre, id, b) }
	for _, k := range sortedID2(b.orders) {
		o := b.orders[k]
		amt, paid, recv := bsub(o.amt, o.open), o.paid, o.recv
		ga, gp, gr := new(big.Int), new(big.Int), new(big.Int)
		if f, ok := fm[k]; ok {
			ga, gp, gr = f.amt.BigInt(), f.paid.BigInt(), f.received.BigInt()
			delete(fm, k)
		}
		if ga.Cmp(amt) == 0 && gp.Cmp(paid) == 0 && gr.Cmp(recv) == 0 {
			if amt.Sign() > 0 {
				m.R.Count("fills_compared", 1)
			}
			continue
		}
		m.v("C12", "batch-allocation", "pair %d height %d: order %v traded %s (paid %s, received %s), the auction rules give %s (paid %s, received %s): %s", id, st.Height, k, ga, gp, gr, amt, paid, recv, show())
		if ga.Sign() == 0 && amt.Sign() > 0 && pre.Ord[k].Status == types.OrderStatusNotExecuted && post.Ord[k].Status == types.OrderStatusExpired {
			m.v("C06", "expired-unmatched", "order %v expired in its first batch at height %d without taking part in it, the auction rules give it %s", k, st.Height, amt)
		}
		if gp.Cmp(badd(paid, big.NewInt(1))) > 0 && ga.Cmp(amt) == 0 && o.buy {
			m.v("C21", "batch-overcharge", "pair %d height %d: buy order %v paid %s for %s, the auction rules charge %s", id, st.Height, k, gp, ga, paid)
		}
	}
	for _, k := range sortedID2(fm) {
		m.v("C12", "batch-allocation", "pair %d height %d: order %v traded %s although it takes no part in the batch", id, st.Height, k, fm[k].amt)
	}
	for _, pid := range pre.PoolIDs() {
		p := pre.Pools[pid]
		if p.PairId != id {
			continue
		}
		dx, dy := new(big.Int), new(big.Int)
		for _, o := range b.pools[pid] {
			if o.buy {
				dx.Sub(dx, o.paid)
				dy.Add(dy, o.recv)
			} else {
				dx.Add(dx, o.recv)
				dy.Sub(dy, o.paid)
			}
		}
		gx, gy := swap.Get(p.ReserveAddress, pair.QuoteCoinDenom).BigInt(), swap.Get(p.ReserveAddress, pair.BaseCoinDenom).BigInt()
		if gx.Cmp(dx) != 0 || gy.Cmp(dy) != 0 {
			m.v("C12", "batch-allocation", "pair %d height %d: pool %d traded %s/%s, the auction rules give %s/%s: %s", id, st.Height, pid, gx, gy, dx, dy, show())
		}
	}
	if b.matched {
		m.R.Count("batches_compared_matched", 1)
		if lp := post.Pairs[id].LastPrice; lp == nil || lp.BigInt().Cmp(b.price) != 0 {
			m.v("C18", "clearing-price", "pair %d height %d: last price is %v after the batch, the auction rules give %s: %s", id, st.Height, lp, decOf(b.price), show())
			m.v("C12", "clearing-price", "pair %d height %d: last price is %v after the batch, the auction rules give %s: %s", id, st.Height, lp, decOf(b.price), show())
		}
	}
}

func (m *DexMon) batchText(pre *Snap, id uint64, b *batchRef) string {
	s := fmt.Sprintf("last price %v, precision %d;", pre.Pairs[id].LastPrice, pre.Params.TickPrecision)
	for _, k := range sortedID2(b.orders) {
		o := b.orders[k]
		side := "sell"
		if o.buy {
			side = "buy"
		}
		s += fmt.Sprintf(" #%d %s %s at %s (batch %d)", k[1], side, o.amt, decOf(o.price), o.batch)
		if len(s) > 900 {
			return s + " ..."
		}
	}
	for _, pid := range sortedU(b.pools) {
		s += fmt.Sprintf(" pool %d: %d quotes", pid, len(b.pools[pid]))
	}
	return s
}
