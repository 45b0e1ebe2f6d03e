package main

// The order-book query against a book rebuilt from the records (C19).

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sort"

	sm "cosmossdk.io/math"

	"defund/x/dex/amm"
	"defund/x/dex/types"
)

type bookLevel struct{ p, amt *big.Int } // price x 10^18, amount

type refBook struct {
	buys, sells []bookLevel // what is left, best first
	crossed     *big.Int
	lo, hi      *big.Int
	pools, user int
}

func addLevel(m map[string]*bookLevel, p sm.LegacyDec, amt *big.Int) {
	if amt.Sign() <= 0 {
		return
	}
	k := p.BigInt().String()
	if m[k] == nil {
		m[k] = &bookLevel{p.BigInt(), new(big.Int)}
	}
	m[k].amt.Add(m[k].amt, amt)
}

// refMatchableAmt is what an order of this price could still trade.
func refMatchableAmt(buy bool, p *big.Int, open, offer *big.Int) *big.Int {
	m := new(big.Int).Set(open)
	if buy {
		if q := new(big.Int).Quo(new(big.Int).Mul(offer, dec18), p); q.Cmp(m) < 0 {
			m = q
		}
	}
	if new(big.Int).Mul(p, m).Cmp(dec18) < 0 { // worth less than one quote coin
		return new(big.Int)
	}
	return m
}

var dec18 = new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)

func rebuildBook(s *Snap, pid uint64) *refBook {
	pair := s.Pairs[pid]
	prec := int(s.Params.TickPrecision)
	lo, hi := refBand(*pair.LastPrice, s.Params.MaxPriceLimitRatio, prec)
	b := &refBook{lo: lo.BigInt(), hi: hi.BigInt()}
	bm, smap := map[string]*bookLevel{}, map[string]*bookLevel{}
	for _, o := range s.Ord {
		if o.PairId != pid || !ordLive(o.Status) {
			continue
		}
		b.user++
		buy := o.Direction == types.OrderDirectionBuy
		m := refMatchableAmt(buy, o.Price.BigInt(), o.OpenAmount.BigInt(), o.RemainingOfferCoin.Amount.BigInt())
		if buy {
			addLevel(bm, o.Price, m)
		} else {
			addLevel(smap, o.Price, m)
		}
	}
	for _, id := range s.PoolIDs() {
		p := s.Pools[id]
		if p.PairId != pid || p.Disabled {
			continue
		}
		rx, ry := s.B(p.ReserveAddress, pair.QuoteCoinDenom), s.B(p.ReserveAddress, pair.BaseCoinDenom)
		if p.Type == types.PoolTypeBasic && (!rx.IsPositive() || !ry.IsPositive()) {
			continue // quotes nothing
		}
		b.pools++
		for _, o := range amm.PoolOrders(p.AMMPool(rx, ry, sm.Int{}), amm.DefaultOrderer, lo, hi, prec) {
			buy := o.GetDirection() == amm.Buy
			m := refMatchableAmt(buy, o.GetPrice().BigInt(), o.GetOpenAmount().BigInt(), o.GetOfferCoinAmount().BigInt())
			if buy {
				addLevel(bm, o.GetPrice(), m)
			} else {
				addLevel(smap, o.GetPrice(), m)
			}
		}
	}
	side := func(m map[string]*bookLevel, sign int) (out []bookLevel) {
		for _, l := range m {
			out = append(out, *l)
		}
		sort.Slice(out, func(i, j int) bool { return out[i].p.Cmp(out[j].p) == sign })
		return
	}
	buys, sells := side(bm, 1), side(smap, -1)
	// What crosses would trade: the best over all prices of the smaller of the
	// amounts wanted at or above it and offered at or below it.
	q := new(big.Int)
	{
		under := new(big.Int) // offered at or below the price looked at
		for _, l := range sells {
			under.Add(under, l.amt)
		}
		over, j := new(big.Int), len(sells)-1
		for _, l := range buys { // prices fall
			over.Add(over, l.amt)
			for j >= 0 && sells[j].p.Cmp(l.p) > 0 {
				under.Sub(under, sells[j].amt)
				j--
			}
			m := over
			if under.Cmp(m) < 0 {
				m = under
			}
			if m.Cmp(q) > 0 {
				q.Set(m)
			}
		}
	}
	b.crossed = q
	cut := func(ls []bookLevel) (out []bookLevel) {
		left := new(big.Int).Set(q)
		for _, l := range ls {
			a := new(big.Int).Set(l.amt)
			if left.Cmp(a) >= 0 {
				left.Sub(left, a)
				continue
			}
			a.Sub(a, left)
			left.SetInt64(0)
			out = append(out, bookLevel{l.p, a})
		}
		return
	}
	b.buys, b.sells = cut(buys), cut(sells)
	return b
}

func decOf(b *big.Int) sm.LegacyDec { return sm.LegacyNewDecFromBigIntWithPrec(b, 18) }

// steps groups one side into steps of the unit, best first, and keeps the
// first n inside the band.
func (b *refBook) steps(buy bool, unit *big.Int, n int) (out []bookLevel) {
	ls := b.sells
	if buy {
		ls = b.buys
	}
	for _, l := range ls {
		k := new(big.Int).Quo(l.p, unit)
		k.Mul(k, unit)
		if !buy && k.Cmp(l.p) != 0 {
			k.Add(k, unit)
		}
		if buy && k.Cmp(b.lo) < 0 || !buy && k.Cmp(b.hi) > 0 {
			break
		}
		if len(out) > 0 && out[len(out)-1].p.Cmp(k) == 0 {
			out[len(out)-1].amt = new(big.Int).Add(out[len(out)-1].amt, l.amt)
			continue
		}
		if len(out) == n {
			break
		}
		out = append(out, bookLevel{k, new(big.Int).Set(l.amt)})
	}
	return
}

func showSteps(ls []bookLevel) string {
	s := ""
	for i, l := range ls {
		if i == 12 {
			return s + "..."
		}
		s += fmt.Sprintf(" %s:%s", trimDec(decOf(l.p)), l.amt)
	}
	return "[" + s + " ]"
}

func trimDec(d sm.LegacyDec) string {
	s := d.String()
	for len(s) > 0 && s[len(s)-1] == '0' {
		s = s[:len(s)-1]
	}
	return s
}

// bookCheck asks for one order book and judges the answer.
func bookCheck(ask asker, s *Snap, pid uint64, r *rand.Rand, rep *Reporter) (out []string) {
	bad := func(f string, a ...any) { out = append(out, fmt.Sprintf("pair %d: ", pid)+fmt.Sprintf(f, a...)) }
	pair := s.Pairs[pid]
	prec := int(s.Params.TickPrecision)
	req := &types.QueryOrderBooksRequest{PairIds: []uint64{pid}, NumTicks: []uint32{1, 2, 3, 5, 10, 100, 4294967295}[r.Intn(7)]}
	var powers []uint32
	switch r.Intn(5) {
	case 0: // default 0,1,2
		powers = []uint32{0, 1, 2}
	case 1:
		req.PriceUnitPowers = []uint32{uint32(r.Intn(8))}
		powers = req.PriceUnitPowers
	case 2:
		req.PriceUnitPowers = []uint32{3, 0}
		powers = []uint32{0, 3}
	case 3:
		req.PriceUnitPowers = []uint32{2, 1, 4, 0}
		powers = []uint32{0, 1, 2, 4}
	case 4:
		req.PriceUnitPowers = []uint32{uint32(r.Intn(30)), 30}
		powers = req.PriceUnitPowers
	}
	ids := s.PairIDs()
	multi := false
	if r.Intn(3) == 0 { // several pairs at once
		other := ids[r.Intn(len(ids))]
		if other != pid && s.Pairs[other].LastPrice != nil {
			req.PairIds = append(req.PairIds, other)
			multi = true
		}
	}
	var resp types.QueryOrderBooksResponse
	err := ask("OrderBooks", req, &resp)
	if pair.LastPrice == nil {
		if err == nil || errors.Is(err, errPanicked) {
			bad("a pair without a price: %v", err)
		}
		return
	}
	if err != nil {
		bad("asking fails: %v", err)
		return
	}
	rep.Count("books_asked", 1)
	if len(resp.Pairs) != len(req.PairIds) || resp.Pairs[0].PairId != pid || multi && resp.Pairs[1].PairId != req.PairIds[1] {
		bad("asked %v, answered %d pairs", req.PairIds, len(resp.Pairs))
		return
	}
	b := rebuildBook(s, pid)
	if b.crossed.Sign() > 0 {
		rep.Count("crossed_books", 1)
	}
	rep.Count("book_user_orders", int64(b.user))
	rep.Count("book_pools", int64(b.pools))
	got := resp.Pairs[0]
	if len(b.buys)+len(b.sells) == 0 {
		if !got.BasePrice.IsNil() && !got.BasePrice.IsZero() || len(got.OrderBooks) > 0 {
			bad("nothing is left to show, answered base price %s and %d books", got.BasePrice, len(got.OrderBooks))
		}
		rep.Count("empty_books", 1)
		return
	}
	var base sm.LegacyDec
	switch {
	case len(b.buys) > 0 && len(b.sells) > 0:
		h, l := decOf(b.buys[0].p), decOf(b.sells[0].p)
		base = amm.RoundPrice(h.Add(l).QuoInt64(2), prec)
		if got.BasePrice.IsNil() || got.BasePrice.LT(h) || got.BasePrice.GT(l) {
			bad("base price %s not between %s and %s", got.BasePrice, h, l)
			return
		}
		rep.Count("two_sided_books", 1)
	case len(b.buys) > 0:
		base = decOf(b.buys[0].p)
	default:
		base = decOf(b.sells[0].p)
	}
	if got.BasePrice.IsNil() || !got.BasePrice.Equal(base) {
		bad("base price %s, the best prices say %s", got.BasePrice, base)
		return
	}
	if len(got.OrderBooks) != len(powers) {
		bad("%d books for %d powers", len(got.OrderBooks), len(powers))
		return
	}
	// The smallest unit is the grid's gap at the highest sell price shown (at
	// the best buy when nothing is sold).
	var units []sm.LegacyDec
	if len(b.sells) == 0 {
		units = append(units, refGapAt(decOf(b.buys[0].p), prec))
	} else {
		top, n := b.sells[0].p, uint32(0)
		out := b.sells[0].p.Cmp(b.hi) > 0
		for _, l := range b.sells {
			if l.p.Cmp(b.hi) > 0 {
				out = true
				break
			}
			top = l.p
			if n++; n == req.NumTicks {
				break
			}
		}
		units = append(units, refGapAt(decOf(top), prec))
		if out && n < req.NumTicks { // more is for sale above the band
			units = append(units, refGapAt(decOf(b.hi), prec), refGapAt(refUpTick(decOf(b.hi).Add(sm.LegacySmallestDec()), prec), prec))
		}
	}
	for i, pw := range powers {
		ob := got.OrderBooks[i]
		var unit sm.LegacyDec
		for _, u := range units {
			for k := uint32(0); k < pw; k++ {
				u = u.MulInt64(10)
			}
			if ob.PriceUnit.Equal(u) {
				unit = u
			}
		}
		if unit.IsNil() {
			bad("power %d has unit %s, smallest may be %v", pw, ob.PriceUnit, units)
			return
		}
		for _, buy := range []bool{true, false} {
			want := b.steps(buy, unit.BigInt(), int(req.NumTicks))
			ticks := ob.Buys
			if !buy {
				ticks = ob.Sells
			}
			var have []bookLevel
			for _, t := range ticks {
				if !t.PoolOrderAmount.IsZero() && !t.PoolOrderAmount.IsNil() {
					have = append(have, bookLevel{t.Price.BigInt(), new(big.Int).Add(t.UserOrderAmount.BigInt(), t.PoolOrderAmount.BigInt())})
				} else {
					have = append(have, bookLevel{t.Price.BigInt(), t.UserOrderAmount.BigInt()})
				}
			}
			if !buy { // shown from the top
				for l, r := 0, len(have)-1; l < r; l, r = l+1, r-1 {
					have[l], have[r] = have[r], have[l]
				}
			}
			same := len(have) == len(want)
			for j := 0; same && j < len(have); j++ {
				same = have[j].p.Cmp(want[j].p) == 0 && have[j].amt.Cmp(want[j].amt) == 0
			}
			if !same {
				bad("unit %s, %d steps, buy=%v: shown (best first) %s, the book is %s", unit, req.NumTicks, buy, showSteps(have), showSteps(want))
				return
			}
			rep.Count("steps_compared", int64(len(have)))
		}
	}
	return
}

// bookEdges asks ill-formed and extreme questions.
func bookEdges(ask asker, s *Snap, r *rand.Rand, rep *Reporter) (out []string) {
	ids := s.PairIDs()
	if len(ids) == 0 {
		return
	}
	pid := ids[r.Intn(len(ids))]
	for _, c := range []struct {
		req  *types.QueryOrderBooksRequest
		fail bool
	}{
		{&types.QueryOrderBooksRequest{PairIds: []uint64{pid}}, true},
		{&types.QueryOrderBooksRequest{NumTicks: 3}, true},
		{&types.QueryOrderBooksRequest{PairIds: []uint64{pid, pid}, NumTicks: 3}, true},
		{&types.QueryOrderBooksRequest{PairIds: []uint64{pid}, PriceUnitPowers: []uint32{1, 1}, NumTicks: 3}, true},
		{&types.QueryOrderBooksRequest{PairIds: []uint64{s.LastPair + 1}, NumTicks: 3}, true},
		{&types.QueryOrderBooksRequest{PairIds: []uint64{pid}, PriceUnitPowers: []uint32{0, 50 + uint32(r.Intn(60))}, NumTicks: 3}, false},
		{&types.QueryOrderBooksRequest{PairIds: []uint64{pid}, PriceUnitPowers: []uint32{4294967295 - uint32(r.Intn(3))*2147483648/2}, NumTicks: 3}, false},
	} {
		err := ask("OrderBooks", c.req, &types.QueryOrderBooksResponse{})
		rep.Count("edge_questions", 1)
		if errors.Is(err, errPanicked) {
			out = append(out, fmt.Sprintf("%v panics: %v", c.req, err))
		} else if err == nil && c.fail {
			out = append(out, fmt.Sprintf("%v is answered", c.req))
		}
	}
	return
}
