package main

// Workloads which drive the matching engine and the curve mathematics
// directly, on many more (and more extreme) books than whole histories reach.

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	sm "cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/amm"
	"defund/x/dex/types"
)

type bookOrder struct {
	ref *rOrder
	o   amm.Order
}

func (b bookOrder) String() string {
	k := "u"
	if b.ref.pool {
		k = "p"
	}
	d := "sell"
	if b.ref.buy {
		d = "buy"
	}
	return fmt.Sprintf("%s%d/%d %s %s@%s offer=%s", k, b.ref.id, b.ref.batch, d, b.ref.amt, sm.LegacyNewDecFromBigIntWithPrec(b.ref.price, 18), b.ref.offer)
}

// genBook makes one random book around a last price.
func genBook(r *rand.Rand) (orders []*rOrder, last sm.LegacyDec, prec int, kind string) {
	prec = []int{1, 2, 3, 4, 4, 1, 2, 3, 4, 0, 5 + r.Intn(12)}[r.Intn(11)]
	lo, hi := -6.0, 6.0
	switch r.Intn(4) {
	case 0:
		lo, hi = -3, -1.5
	case 1:
		lo, hi = -0.5, 0.5
	case 2:
		lo, hi = -9, -5
	}
	last = refDownTick(decPow(r, lo, hi), prec)
	if r.Intn(6) == 0 {
		last = mulPow10(sm.LegacyOneDec(), r.Intn(9)-6)
	}
	if low := refLowestTick(prec).MulInt64(1000); last.LT(low) {
		last = low
	}
	n := 2 + r.Intn(9)
	if r.Intn(6) == 0 {
		n = 10 + r.Intn(25)
	}
	spread := 1 + r.Intn(5)
	alo, ahi := 2.0, 4.0
	switch r.Intn(4) {
	case 0:
		alo, ahi = 2, 2.5
	case 1:
		alo, ahi = 4, 12
	case 2:
		alo, ahi = 2, 7
	}
	nb := 1 + r.Intn(3)
	gap := refGapAt(last, prec)
	prices := []sm.LegacyDec{last}
	for i := 0; i < spread; i++ {
		for _, s := range []int64{1, -1} {
			p := last.Add(gap.MulInt64(s * (1 + r.Int63n(6))))
			p = maxDec(refDownTick(maxDec(p, refLowestTick(prec)), prec), refLowestTick(prec))
			prices = append(prices, p)
		}
	}
	var prev sm.Int
	for i := 0; i < n; i++ {
		buy := r.Intn(2) == 0
		p := prices[r.Intn(len(prices))]
		amt := logUniform(r, alo, ahi)
		if amt.LT(sm.NewInt(100)) {
			amt = sm.NewInt(100)
		}
		if !prev.IsNil() && r.Intn(5) == 0 {
			amt = prev
		}
		prev = amt
		pool := r.Intn(4) == 0
		if r.Intn(8) == 0 && !pool { // remains of an order filled before
			amt = sm.NewInt(1 + r.Int63n(120))
		}
		offer := refOffer(buy, p, amt)
		batch := uint64(0)
		if !pool {
			batch = uint64(1 + r.Intn(nb))
			if buy && r.Intn(6) == 0 {
				offer = offer.AddRaw(r.Int63n(5))
			}
		}
		orders = append(orders, newROrder(buy, p, amt, offer, batch, pool, uint64(i+1)))
	}
	return orders, last, prec, fmt.Sprintf("n=%d prec=%d last=%s spread=%d", n, prec, last, spread)
}

func maxDec(a, b sm.LegacyDec) sm.LegacyDec {
	if a.GT(b) {
		return a
	}
	return b
}

var ammTestUser = userAddr(7)

// real builds the module's own order for a reference order.
func realOrder(o *rOrder) amm.Order {
	price := sm.LegacyNewDecFromBigIntWithPrec(o.price, 18)
	amt, off := sm.NewIntFromBigInt(o.amt), sm.NewIntFromBigInt(o.offer)
	dir, tdir := amm.Sell, types.OrderDirectionSell
	od, dd := "base", "quote"
	if o.buy {
		dir, tdir = amm.Buy, types.OrderDirectionBuy
		od, dd = "quote", "base"
	}
	if o.pool {
		return types.NewPoolOrder(o.id, ammTestUser, dir, price, amt, od, dd)
	}
	return types.NewUserOrder(types.Order{Id: o.id, PairId: 1, Orderer: ammTestUser.String(), Direction: tdir, OfferCoin: sdk.NewCoin(od, off),
		RemainingOfferCoin: sdk.NewCoin(od, off), ReceivedCoin: sdk.NewCoin(dd, sm.ZeroInt()), Price: price, Amount: amt, OpenAmount: amt, BatchId: o.batch,
		Status: types.OrderStatusNotMatched})
}

func bookText(bs []bookOrder) string {
	var ss []string
	for _, b := range bs {
		ss = append(ss, b.String())
	}
	return strings.Join(ss, "; ")
}

// ammBookCase runs one book through the real engine and judges it.
func ammBookCase(r *rand.Rand, rep *Reporter) (nontrivial bool, digest string) {
	ref, last, prec, kind := genBook(r)
	var bs []bookOrder
	for _, o := range ref {
		bs = append(bs, bookOrder{o, realOrder(o)})
	}
	first := r.Intn(5) == 0
	text := fmt.Sprintf("%s first=%v [%s]", kind, first, bookText(bs))
	digest = text
	perm := r.Perm(len(bs))
	ob := amm.NewOrderBook()
	for _, i := range perm {
		ob.AddOrder(bs[i].o)
	}
	var price sm.LegacyDec
	var qd sm.Int
	var matched bool
	pan := catch(func() {
		if first {
			var found bool
			price, found = amm.FindMatchPrice(ob.MakeView(), prec)
			if found {
				qd, matched = ob.MatchAtSinglePrice(price)
			}
		} else {
			price, qd, matched = ob.Match(last)
		}
	})
	if pan != "" {
		rep.Violate("C14", "match-panic:"+panicKey(pan), "matching panicked: %s on %s", firstLine(pan), text)
		return true, digest
	}
	rep.Count("amm_books", 1)
	rb := newRBook(ref)
	var rp *big.Int
	var rm bool
	if first {
		c := rCurve{
			buyOver:   func(p *big.Int) *big.Int { return refSide(ref, true, p) },
			sellUnder: func(p *big.Int) *big.Int { return refSide(ref, false, p) },
		}
		lo, hi := last.BigInt(), last.BigInt()
		for _, o := range ref {
			if o.price.Cmp(lo) < 0 {
				lo = o.price
			}
			if o.price.Cmp(hi) > 0 {
				hi = o.price
			}
		}
		crossed := len(rb.buys) > 0 && len(rb.sells) > 0 && rb.buys[0].price.Cmp(rb.sells[0].price) >= 0
		if crossed {
			var ok bool
			rp, ok = refFirstPrice(c, lo, hi, prec)
			if ok {
				rm = rb.single(rp)
			}
		}
	} else {
		rp, rm = rb.run(last.BigInt())
	}
	if matched != rm {
		rep.Violate("C12", "matched", "engine matched=%v, the auction rules give %v on %s", matched, rm, text)
	} else if matched && price.BigInt().Cmp(rp) != 0 {
		rep.Violate("C12", "clearing-price", "engine cleared at %s, the auction rules give %s on %s", price, sm.LegacyNewDecFromBigIntWithPrec(rp, 18), text)
	}
	if !matched {
		for _, b := range bs {
			if b.o.IsMatched() || !b.o.GetPaidOfferCoinAmount().IsZero() || !b.o.GetReceivedDemandCoinAmount().IsZero() {
				rep.Violate("C12", "fill-without-match", "order %s was filled although nothing matched: %s", b, text)
			}
		}
		return false, digest
	}
	rep.Count("amm_books_matched", 1)
	bought, sold, qp, qr := sm.ZeroInt(), sm.ZeroInt(), sm.ZeroInt(), sm.ZeroInt()
	nf := int64(0)
	for _, b := range bs {
		o := b.o
		m := o.GetAmount().Sub(o.GetOpenAmount())
		paid, recv := o.GetPaidOfferCoinAmount(), o.GetReceivedDemandCoinAmount()
		lim := o.GetPrice()
		if m.IsPositive() {
			nf += int64(b.ref.nfills) + 1
		}
		if o.GetOpenAmount().IsNegative() || m.IsNegative() || paid.GT(o.GetOfferCoinAmount()) || paid.IsNegative() || recv.IsNegative() {
			rep.Violate("C03", "amm-overspent", "order %s ends with open=%s paid=%s received=%s on %s", b, o.GetOpenAmount(), paid, recv, text)
		}
		slack := sm.NewInt(int64(len(bs)) + 2)
		if b.ref.buy {
			bought, qp = bought.Add(recv), qp.Add(paid)
			if !recv.Equal(m) || m.IsPositive() && !paid.IsPositive() {
				rep.Violate("C03", "amm-buy-fill", "buy order %s matched %s, paid %s, received %s on %s", b, m, paid, recv, text)
			}
			if paid.GT(refCeilMul(lim, m).Add(slack)) {
				rep.Violate("C03", "amm-limit", "buy order %s matched %s and paid %s, above its limit, on %s", b, m, paid, text)
			}
		} else {
			sold, qr = sold.Add(paid), qr.Add(recv)
			if !paid.Equal(m) || m.IsPositive() && !recv.IsPositive() {
				rep.Violate("C03", "amm-sell-fill", "sell order %s matched %s, paid %s, received %s on %s", b, m, paid, recv, text)
			}
			if recv.LT(refCeilMul(lim, m).SubRaw(1).Sub(slack)) {
				rep.Violate("C03", "amm-limit", "sell order %s matched %s and received %s, below its limit, on %s", b, m, recv, text)
			}
		}
		if m.BigInt().Cmp(bsub(b.ref.amt, b.ref.open)) != 0 || paid.BigInt().Cmp(b.ref.paid) != 0 || recv.BigInt().Cmp(b.ref.recv) != 0 {
			rep.Violate("C12", "allocation", "order %s got matched=%s paid=%s received=%s; the auction rules give matched=%s paid=%s received=%s on %s", b, m, paid, recv,
				bsub(b.ref.amt, b.ref.open), b.ref.paid, b.ref.recv, text)
		}
	}
	if !bought.Equal(sold) {
		for _, p := range []string{"C01", "C02", "C12"} {
			rep.Violate(p, "amm-base-imbalance", "%s base bought but %s sold on %s", bought, sold, text)
		}
	}
	if d := qp.Sub(qr); !d.Equal(qd) {
		for _, p := range []string{"C01", "C21"} {
			rep.Violate(p, "amm-surplus", "buyers paid %s, sellers received %s, but the reported surplus is %s on %s", qp, qr, qd, text)
		}
	} else if d.IsNegative() || d.GT(sm.NewInt(4*(nf+4))) {
		rep.Violate("C21", "amm-surplus-size", "surplus of %s with %d fills on %s", d, nf, text)
	}
	return true, digest
}

func refSide(os []*rOrder, buy bool, p *big.Int) *big.Int {
	t := new(big.Int)
	for _, o := range os {
		if o.buy != buy {
			continue
		}
		if buy && o.price.Cmp(p) >= 0 || !buy && o.price.Cmp(p) <= 0 {
			t.Add(t, o.can(o.price))
		}
	}
	return t
}

func catch(f func()) (pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprintf("%v\n%s", r, stackTop())
		}
	}()
	f()
	return
}

func chunkFamily(name string, quick, thorough, per int, one func(r *rand.Rand, rep *Reporter) (bool, string)) *Family {
	return &Family{Name: name, N: n(quick, thorough), Run: func(idx int, seed int64, tier string, rep *Reporter) {
		r := rand.New(rand.NewSource(seed))
		for i := 0; i < per; i++ {
			nt, d := one(r, rep)
			rep.Steps++
			rep.Case(d, nt, func() string { return d })
		}
	}}
}

func ammBookFamily(quick, thorough int) *Family {
	return chunkFamily("amm-books", quick, thorough, 250, ammBookCase)
}

// ---- pools ----------------------------------------------------------------

func genPool(r *rand.Rand, rep *Reporter) (p amm.Pool, ranged bool, mn, mx sm.LegacyDec, text string, ok bool) {
	rlo, rhi := 2.0, 12.0
	switch r.Intn(4) {
	case 0:
		rlo, rhi = 0, 4
	case 1:
		rlo, rhi = 6, 24
	}
	x, y := logUniform(r, rlo, rhi), logUniform(r, rlo, rhi)
	if r.Intn(3) > 0 {
		return amm.NewBasicPool(x, y, sm.NewInt(1)), false, mn, mx, fmt.Sprintf("basic pool %s/%s", x, y), x.IsPositive() && y.IsPositive()
	}
	mn = decPow(r, -6, 6)
	if r.Intn(2) == 0 {
		mn = decPow(r, -0.5, 0.5)
	}
	mx = mn.Mul(sm.LegacyOneDec().Add(decPow(r, -2.9, 3)))
	switch r.Intn(5) {
	case 0:
		x = sm.ZeroInt()
	case 1:
		y = sm.ZeroInt()
	case 2: // reserves consistent with a price inside the range
		ini := mn.Add(mx.Sub(mn).Mul(sm.LegacyNewDecWithPrec(1+r.Int63n(998), 3)))
		if pan := catch(func() {
			pool, err := amm.CreateRangedPool(x, y, mn, mx, ini)
			if err == nil {
				x, y = pool.Balances()
			}
		}); pan != "" {
			return nil, true, mn, mx, "", false
		}
	}
	text = fmt.Sprintf("ranged pool %s/%s in [%s,%s]", x, y, mn, mx)
	if !x.IsPositive() && !y.IsPositive() {
		return nil, true, mn, mx, text, false
	}
	pan := catch(func() { p = amm.NewRangedPool(x, y, sm.NewInt(1), mn, mx) })
	if pan != "" {
		rep.Violate("C14", "pool-panic:"+panicKey(pan), "a %s cannot be evaluated: %s", text, firstLine(pan))
		return nil, true, mn, mx, text, false
	}
	return p, true, mn, mx, text, true
}

// comps are the virtual reserves (scaled by 1e18).
func comps(p amm.Pool) (X, Y *big.Int) {
	rx, ry := p.Balances()
	X, Y = bmul(rx.BigInt(), e18), bmul(ry.BigInt(), e18)
	if rp, ok := p.(*amm.RangedPool); ok {
		tx, ty := rp.Translation()
		X, Y = badd(X, tx.BigInt()), badd(Y, ty.BigInt())
	}
	return
}

func ammPoolCase(r *rand.Rand, rep *Reporter) (bool, string) {
	p, ranged, mn, mx, text, ok := genPool(r, rep)
	if !ok {
		return false, text
	}
	prec := []int{1, 2, 3, 4, 1, 2, 3, 4, 0, 5 + r.Intn(12)}[r.Intn(10)]
	var pp sm.LegacyDec
	if pan := catch(func() { pp = p.Price() }); pan != "" {
		rep.Violate("C14", "pool-panic:"+panicKey(pan), "%s has no price: %s", text, firstLine(pan))
		return false, text
	}
	if pp.LT(sm.LegacyNewDecWithPrec(1, 12)) || pp.GT(sm.NewIntWithDecimal(1, 18).ToLegacyDec()) {
		return false, text
	}
	if ranged {
		tol := relUp(relUp(mx.BigInt()))
		if pp.BigInt().Cmp(badd(tol, big.NewInt(10))) > 0 || relUp(relUp(badd(pp.BigInt(), big.NewInt(10)))).Cmp(mn.BigInt()) < 0 {
			// Reserves of a few units cannot express every price: allow it only there.
			rx, ry := p.Balances()
			if rx.GT(sm.NewInt(10000)) && ry.GT(sm.NewInt(10000)) {
				rep.Violate("C04", "ranged-price", "%s quotes the price %s", text, pp)
			}
		}
	}
	ratio := []sm.LegacyDec{dec("0.1"), dec("0.03"), dec("0.2"), dec("0.01")}[r.Intn(4)]
	last := refDownTick(pp.Mul(sm.LegacyOneDec().Add(sm.LegacyNewDecWithPrec(r.Int63n(400)-200, 3).Mul(ratio).MulInt64(int64(r.Intn(8))))), prec)
	if !last.IsPositive() || last.LT(refLowestTick(prec)) {
		return false, text
	}
	lo, hi := refBand(last, ratio, prec)
	if lo.GT(hi) {
		return false, text
	}
	text += fmt.Sprintf(" price=%s prec=%d band=[%s,%s]", pp, prec, lo, hi)
	rx0, ry0 := p.Balances()
	X0, Y0 := comps(p)
	os := amm.PoolOrders(p.Clone(), amm.DefaultOrderer, lo, hi, prec)
	rep.Count("pool_quotes", int64(len(os)))
	rx, ry := p.Balances()
	if !rx.Equal(rx0) || !ry.Equal(ry0) {
		rep.Violate("C25", "quote-mutates", "quoting changed %s", text)
	}
	var buyQ, sellB sm.Int = sm.ZeroInt(), sm.ZeroInt()
	var bX, bY, sX, sY = X0, Y0, X0, Y0
	seen := map[string]int{}
	for i, o := range os {
		pr, amt := o.GetPrice(), o.GetAmount()
		k := o.GetDirection().String() + pr.String()
		// A pool whose price lies outside the band trades up to the edge with
		// one order and quotes on from there with another.
		most := 1
		if o.GetDirection() == amm.Buy && pr.Equal(hi) && pp.GT(hi) || o.GetDirection() == amm.Sell && pr.Equal(lo) && pp.LT(lo) {
			most = 2
		}
		if seen[k]++; seen[k] > most {
			rep.Violate("C25", "duplicate-level", "%s quotes the level %s %d times", text, k, seen[k])
		}
		if !refIsTick(pr, prec) {
			rep.Violate("C25", "off-grid", "%s quotes off-grid price %s (order %d)", text, pr, i)
		}
		if pr.LT(lo) || pr.GT(hi) {
			rep.Violate("C25", "outside-band", "%s quotes %s outside the band", text, pr)
		}
		if amt.LT(amm.MinCoinAmount) {
			rep.Violate("C25", "dust-quote", "%s quotes %s base coins at %s", text, amt, pr)
		}
		a := bmul(amt.BigInt(), e18)
		if o.GetDirection() == amm.Buy {
			q := refCeilMul(pr, amt)
			buyQ = buyQ.Add(q)
			if pr.GT(pp) {
				rep.Violate("C25", "buys-above-price", "%s offers to buy at %s, above its price", text, pr)
			}
			bX, bY = bsub(bX, bmul(q.BigInt(), e18)), badd(bY, a)
		} else {
			sellB = sellB.Add(amt)
			if pr.LT(pp) {
				rep.Violate("C25", "sells-below-price", "%s offers to sell at %s, below its price", text, pr)
			}
			q := sm.NewIntFromBigInt(bfloor(pr.BigInt(), amt.BigInt()))
			if !q.IsPositive() {
				rep.Violate("C25", "sells-for-nothing", "%s offers %s base coins at %s for nothing", text, amt, pr)
			}
			sX, sY = badd(sX, bmul(q.BigInt(), e18)), bsub(sY, a)
		}
	}
	if buyQ.GT(rx0) {
		rep.Violate("C25", "overcommits-quote", "%s offers to spend %s quote coins but holds %s", text, buyQ, rx0)
	}
	if sellB.GT(ry0) {
		rep.Violate("C25", "overcommits-base", "%s offers %s base coins but holds %s", text, sellB, ry0)
	}
	// all quotes of one side taken: the pool is not poorer on its curve
	k0 := bmul(X0, Y0)
	slack := bmul(big.NewInt(int64(2*len(os)+4)), e18)
	for i, k := range [][2]*big.Int{{bX, bY}, {sX, sY}} {
		if relUp(bmul(badd(k[0], slack), k[1])).Cmp(k0) < 0 {
			rep.Violate("C04", "quote-curve", "%s side %d: taking all its quotes lowers the curve from %s to %s", text, i, k0, bmul(k[0], k[1]))
		}
	}
	// depth functions
	var ps []sm.LegacyDec
	for i := 0; i < 6; i++ {
		ps = append(ps, pp.Mul(decPow(r, -1, 1)), refDownTick(pp.Mul(sm.LegacyOneDec().Add(sm.LegacyNewDecWithPrec(r.Int63n(200)-100, 3))), prec))
	}
	if ranged {
		ps = append(ps, mn, mx)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].LT(ps[j]) })
	var prevB, prevS sm.Int
	var prevP sm.LegacyDec
	for _, q := range ps {
		if q.LT(sm.LegacyNewDecWithPrec(1, 14)) {
			continue
		}
		b, s := p.BuyAmountOver(q, true), p.SellAmountUnder(q, true)
		if b.IsNegative() || s.IsNegative() || s.GT(ry0) || b.LT(amm.MaxCoinAmount) && sm.NewIntFromBigInt(bfloor(q.BigInt(), b.BigInt())).GT(rx0) {
			rep.Violate("C25", "depth-over-reserves", "%s: depth at %s is buy %s / sell %s", text, q, b, s)
		}
		if q.GTE(pp) && b.IsPositive() || q.LTE(pp) && s.IsPositive() {
			rep.Violate("C25", "depth-wrong-side", "%s: depth at %s is buy %s / sell %s", text, q, b, s)
		}
		if !prevB.IsNil() {
			// non-increasing / non-decreasing; selling depth exactly, buying depth up to truncation
			if b.GT(prevB.AddRaw(1)) && (!ranged || prevP.GTE(mn)) && b.LT(amm.MaxCoinAmount) {
				rep.Violate("C25", "depth-monotone", "%s: buying depth rises from %s at %s to %s at %s", text, prevB, prevP, b, q)
			}
			if s.LT(prevS.SubRaw(1)) {
				rep.Violate("C25", "depth-monotone", "%s: selling depth falls from %s at %s to %s at %s", text, prevS, prevP, s, q)
			}
		}
		prevB, prevS, prevP = b, s, q
		bt, st := p.BuyAmountTo(q), p.SellAmountTo(q)
		if bt.IsNegative() || st.IsNegative() || st.GT(ry0) || bt.LT(amm.MaxCoinAmount) && sm.NewIntFromBigInt(bfloor(q.BigInt(), bt.BigInt())).GT(rx0) {
			rep.Violate("C25", "depth-to-over-reserves", "%s: amount to %s is buy %s / sell %s", text, q, bt, st)
		}
	}
	return len(os) > 0, text
}

// ammCurveMatch: a real pool's quotes against random user orders, then the
// pool's reserves after the match are compared with its curve.
func ammLiquidityCase(r *rand.Rand, rep *Reporter) (bool, string) {
	one := sm.LegacyOneDec()
	rlo, rhi := 0.0, 14.0
	switch r.Intn(3) {
	case 0:
		rlo, rhi = 0, 4
	case 1:
		rlo, rhi = 10, 30
	}
	rx, ry, ps := logUniform(r, rlo, rhi), logUniform(r, rlo, rhi), logUniform(r, 0, 14)
	switch r.Intn(8) {
	case 0:
		rx = sm.ZeroInt()
	case 1:
		ry = sm.ZeroInt()
	}
	if !rx.IsPositive() && !ry.IsPositive() || !ps.IsPositive() {
		return false, ""
	}
	x, y := logUniform(r, 0, rhi), logUniform(r, 0, rhi)
	if r.Intn(2) == 0 { // near-proportional
		n := 1 + r.Int63n(5000)
		x, y = rx.MulRaw(n).QuoRaw(1000).AddRaw(r.Int63n(3)), ry.MulRaw(n).QuoRaw(1000).AddRaw(r.Int63n(3))
	}
	text := fmt.Sprintf("reserves %s/%s shares %s deposit %s/%s", rx, ry, ps, x, y)
	var ax, ay, pc sm.Int
	if pan := catch(func() { ax, ay, pc = amm.Deposit(rx, ry, ps, x, y) }); pan != "" {
		rep.Violate("C14", "deposit-panic:"+panicKey(pan), "depositing panicked: %s on %s", firstLine(pan), text)
		return false, text
	}
	rep.Count("amm_deposits", 1)
	if ax.IsNegative() || ay.IsNegative() || pc.IsNegative() || ax.GT(x) && rx.IsPositive() || ay.GT(y) && ry.IsPositive() {
		rep.Violate("C05", "amm-deposit-over", "%s accepted %s/%s for %s shares", text, ax, ay, pc)
	}
	if bmul(pc.BigInt(), rx.BigInt()).Cmp(bmul(ax.BigInt(), ps.BigInt())) > 0 || bmul(pc.BigInt(), ry.BigInt()).Cmp(bmul(ay.BigInt(), ps.BigInt())) > 0 {
		// the proportion is an 18-digit decimal; only a real dilution counts
		for i, v := range [][2]sm.Int{{rx, ax}, {ry, ay}} {
			l := bmul(pc.BigInt(), v[0].BigInt())
			rr := relUp(bmul(badd(v[1].BigInt(), big.NewInt(0)), ps.BigInt()))
			if l.Cmp(rr) > 0 {
				rep.Violate("C05", "amm-deposit-dilutes", "%s accepted %s/%s for %s shares: holders are diluted (side %d)", text, ax, ay, pc, i)
			}
		}
	}
	// not needlessly mean: all that fits is accepted up to rounding
	if pc.IsPositive() {
		rep.Count("amm_deposits_accepted", 1)
	}
	fee := []sm.LegacyDec{sm.LegacyZeroDec(), dec("0.003"), dec("0.1"), dec("0.9"), one}[r.Intn(5)]
	w := logUniform(r, 0, 14)
	if w.GT(ps) || r.Intn(8) == 0 {
		w = ps
	}
	if r.Intn(4) == 0 {
		w = ps.SubRaw(1)
	}
	if !w.IsPositive() {
		w = sm.OneInt()
	}
	if w.GT(ps) {
		w = ps
	}
	var ox, oy sm.Int
	if pan := catch(func() { ox, oy = amm.Withdraw(rx, ry, ps, w, fee) }); pan != "" {
		rep.Violate("C14", "withdraw-panic:"+panicKey(pan), "withdrawing panicked: %s on %s", firstLine(pan), text)
		return false, text
	}
	text += fmt.Sprintf(" withdraw %s fee %s", w, fee)
	for i, v := range [][2]sm.Int{{rx, ox}, {ry, oy}} {
		if w.Equal(ps) {
			if !v[1].Equal(v[0]) {
				rep.Violate("C05", "amm-last-share", "%s: redeeming every share returned %s of %s (side %d)", text, v[1], v[0], i)
			}
			continue
		}
		if v[1].IsNegative() || bmul(v[1].BigInt(), ps.BigInt()).Cmp(bmul(v[0].BigInt(), w.BigInt())) > 0 {
			rep.Violate("C05", "amm-withdraw-over", "%s: %s shares returned %s of %s (side %d)", text, w, v[1], v[0], i)
		}
		// exact: floor(r * w/ps * (1-fee)) up to 18-digit truncation
		num := bmul(bmul(v[0].BigInt(), w.BigInt()), one.Sub(fee).BigInt())
		den := bmul(ps.BigInt(), e18)
		ideal := bdiv(num, den)
		short := bsub(ideal, v[1].BigInt())
		allow := badd(bdiv(v[0].BigInt(), new(big.Int).Exp(big.NewInt(10), big.NewInt(17), nil)), big.NewInt(1))
		if short.Cmp(allow) > 0 {
			rep.Violate("C05", "amm-withdraw-short", "%s: %s shares returned %s, the fair amount is %s (side %d)", text, w, v[1], ideal, i)
		}
		if new(big.Int).Neg(short).Cmp(big.NewInt(0)) > 0 {
			rep.Violate("C05", "amm-withdraw-fee", "%s: %s shares returned %s, more than %s after the fee (side %d)", text, w, v[1], ideal, i)
		}
	}
	// round trip: deposit then withdraw the minted shares never gains
	if pc.IsPositive() {
		var bx, by sm.Int
		if pan := catch(func() { bx, by = amm.Withdraw(rx.Add(ax), ry.Add(ay), ps.Add(pc), pc, sm.LegacyZeroDec()) }); pan == "" {
			if bx.GT(ax) || by.GT(ay) {
				rep.Violate("C05", "amm-round-trip", "%s: deposited %s/%s and withdrew %s/%s", text, ax, ay, bx, by)
			}
		}
	}
	return pc.IsPositive(), text
}

func ammCreateCase(r *rand.Rand, rep *Reporter) (bool, string) {
	x, y := logUniform(r, 0, 26), logUniform(r, 0, 26)
	if r.Intn(2) == 0 {
		x, y = logUniform(r, 2, 9), logUniform(r, 2, 9)
	}
	mn := decPow(r, -8, 8)
	mx := mn.Mul(sm.LegacyOneDec().Add(decPow(r, -2.9, 5)))
	ini := mn.Add(mx.Sub(mn).Mul(sm.LegacyNewDecWithPrec(r.Int63n(1001), 3)))
	text := fmt.Sprintf("ranged creation %s/%s in [%s,%s] at %s", x, y, mn, mx, ini)
	var pool *amm.RangedPool
	var err error
	if pan := catch(func() { pool, err = amm.CreateRangedPool(x, y, mn, mx, ini) }); pan != "" {
		rep.Count("create_panics", 1)
		return false, text
	}
	if err != nil {
		return false, text
	}
	ax, ay := pool.Balances()
	if ax.GT(x) || ay.GT(y) || ax.IsNegative() || ay.IsNegative() {
		rep.Violate("C05", "amm-create-over", "%s took %s/%s", text, ax, ay)
	}
	rep.Count("ranged_created", 1)
	return true, text
}

// ---- ticks ----------------------------------------------------------------

func tickCase(r *rand.Rand, rep *Reporter) (bool, string) {
	prec := r.Intn(7)
	if r.Intn(3) == 0 {
		prec = 7 + r.Intn(10)
	}
	var p sm.LegacyDec
	switch r.Intn(5) {
	case 0:
		p = decPow(r, -17, 30)
	case 1: // digit strings
		s := fmt.Sprint(1 + r.Int63n(99999999))
		s += strings.Repeat("0", r.Intn(40))
		b, _ := new(big.Int).SetString(s, 10)
		p = sm.LegacyNewDecFromBigIntWithPrec(b, 18)
	case 2: // powers of ten and neighbours
		b := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(prec+r.Intn(40))), nil)
		b.Add(b, big.NewInt(int64(r.Intn(3)-1)))
		p = sm.LegacyNewDecFromBigIntWithPrec(b, 18)
	case 3:
		p = refDownTick(decPow(r, -10, 20), prec)
	case 4:
		b := new(big.Int).Rand(r, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(1+r.Intn(50))), nil))
		p = sm.LegacyNewDecFromBigIntWithPrec(b.Add(b, big.NewInt(1)), 18)
	}
	low := refLowestTick(prec)
	if p.LT(low) {
		p = low
	}
	text := fmt.Sprintf("price %s precision %d", p, prec)
	bad := func(key, f string, a ...any) { rep.Violate("C11", key, text+": "+f, a...) }
	T := amm.TickPrecision(prec)
	pan := catch(func() {
		orig := p.String()
		d, u := amm.PriceToDownTick(p, prec), amm.PriceToUpTick(p, prec)
		if !d.Equal(refDownTick(p, prec)) || !T.PriceToDownTick(p).Equal(d) {
			bad("down", "rounds down to %s, the grid has %s", d, refDownTick(p, prec))
		}
		if !u.Equal(refUpTick(p, prec)) || !T.PriceToUpTick(p).Equal(u) {
			bad("up", "rounds up to %s, the grid has %s", u, refUpTick(p, prec))
		}
		nu := amm.UpTick(p, prec)
		if want := d.Add(refGapAt(d, prec)); !nu.Equal(want) || !T.UpTick(p).Equal(nu) {
			bad("next", "next level above is %s, the grid has %s", nu, want)
		}
		if g := amm.TickGap(p, prec); !g.Equal(refGapAt(p, prec)) || !T.TickGap(p).Equal(g) {
			bad("gap", "gap %s, the grid has %s", g, refGapAt(p, prec))
		}
		if p.GT(low) {
			nd := amm.DownTick(p, prec)
			if !refIsTick(nd, prec) || !nd.LT(p) || !T.DownTick(p).Equal(nd) {
				bad("prev", "level below is %s", nd)
			} else if up := amm.UpTick(nd, prec); !(up.GTE(p)) || p.Equal(d) && !up.Equal(p) {
				bad("prev", "level below is %s but the one above that is %s", nd, up)
			}
		}
		i := amm.TickToIndex(d, prec)
		if int64(i) != refTickIdx(d.BigInt(), prec) || T.TickToIndex(d) != i {
			bad("index", "level %s has index %d, expected %d", d, i, refTickIdx(d.BigInt(), prec))
		}
		if back := amm.TickFromIndex(i, prec); !back.Equal(d) || !T.TickFromIndex(i).Equal(back) {
			bad("index-inverse", "level %s has index %d, which is the level %s", d, i, back)
		}
		if j := amm.TickToIndex(nu, prec); j != i+1 {
			bad("index-succ", "levels %s and %s have the indices %d and %d", d, nu, i, j)
		}
		rd := amm.RoundPrice(p, prec)
		if p.Equal(d) && !rd.Equal(p) || !rd.Equal(d) && !rd.Equal(nu) {
			bad("round", "rounds to %s", rd)
		} else if !p.Equal(d) && amm.TickToIndex(rd, prec)%2 != 0 {
			bad("round-even", "rounds to %s whose index is odd", rd)
		}
		if p.String() != orig {
			bad("mutated", "the price was changed to %s", p)
		}
	})
	if pan != "" {
		bad("panic", "panicked: %s", firstLine(pan))
	}
	rep.Count("tick_prices", 1)
	return true, text
}

// tickWalk walks a whole stretch of the grid in both directions.
func tickWalk(r *rand.Rand, rep *Reporter) (bool, string) {
	prec := r.Intn(5)
	if r.Intn(3) == 0 {
		prec = 5 + r.Intn(12)
	}
	start := refDownTick(decPow(r, -8, 12), prec)
	if r.Intn(3) == 0 { // across a power of ten, where the gap changes
		t := mulPow10(sm.LegacyOneDec(), r.Intn(30)-10)
		start = t
		for i := 0; i < 200 && start.GT(refLowestTick(prec)); i++ {
			start = refDownTick(start.Sub(sm.LegacySmallestDec()), prec)
		}
	}
	if start.LT(refLowestTick(prec)) {
		start = refLowestTick(prec)
	}
	text := fmt.Sprintf("walk from %s precision %d", start, prec)
	bad := func(key, f string, a ...any) { rep.Violate("C11", key, text+": "+f, a...) }
	pan := catch(func() {
		t := start
		idx := amm.TickToIndex(t, prec)
		nsteps := 400
		for s := 0; s < nsteps; s++ {
			u := amm.UpTick(t, prec)
			if !u.GT(t) || !refIsTick(u, prec) || !amm.DownTick(u, prec).Equal(t) || !amm.TickFromIndex(idx+1, prec).Equal(u) {
				bad("walk", "after %s comes %s", t, u)
				return
			}
			// nothing of the grid lies in between
			mid := t.Add(u).QuoInt64(2)
			if mid.GT(t) && (!amm.PriceToDownTick(mid, prec).Equal(t) || !amm.PriceToUpTick(mid, prec).Equal(u)) {
				bad("walk-gap", "%s rounds to %s/%s, expected %s/%s", mid, amm.PriceToDownTick(mid, prec), amm.PriceToUpTick(mid, prec), t, u)
				return
			}
			t, idx = u, idx+1
		}
		rep.Count("tick_walk_levels", int64(nsteps))
		lt, ht := amm.LowestTick(prec), amm.HighestTick(prec)
		if !lt.Equal(refLowestTick(prec)) || amm.TickToIndex(lt, prec) != 0 {
			bad("lowest", "lowest level %s", lt)
		}
		if !refIsTick(ht, prec) || ht.LT(sm.NewIntWithDecimal(1, 40).ToLegacyDec()) {
			bad("highest", "highest level %s", ht)
		}
	})
	if pan != "" {
		bad("panic", "panicked: %s", firstLine(pan))
	}
	return true, text
}
