package main

// An independent, integer-only statement of the batch auction: which price a
// batch clears at and how much every order gets. It is written from the rules
// (price levels, batches, proportional sharing, remainder by priority), works
// on scaled big integers only and shares no code with the module.

import (
	"math/big"
	"sort"

	sm "cosmossdk.io/math"
)

var e18 = new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)

type rOrder struct {
	buy    bool
	price  *big.Int // scaled by 1e18
	amt    *big.Int
	offer  *big.Int
	batch  uint64 // 0: current batch (pools)
	pool   bool
	id     uint64
	open   *big.Int
	paid   *big.Int
	recv   *big.Int
	nfills int
}

func newROrder(buy bool, price sm.LegacyDec, amt, offer sm.Int, batch uint64, pool bool, id uint64) *rOrder {
	return &rOrder{buy: buy, price: price.BigInt(), amt: amt.BigInt(), offer: offer.BigInt(), batch: batch, pool: pool, id: id,
		open: amt.BigInt(), paid: new(big.Int), recv: new(big.Int)}
}

func bmul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func badd(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
func bsub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func bdiv(a, b *big.Int) *big.Int { return new(big.Int).Quo(a, b) }
func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bfloor(p, a *big.Int) *big.Int { return bdiv(bmul(p, a), e18) }
func bceil(p, a *big.Int) *big.Int {
	q, m := new(big.Int).QuoRem(bmul(p, a), e18, new(big.Int))
	if m.Sign() > 0 {
		q.Add(q, big.NewInt(1))
	}
	return q
}

// cap is what the order can still trade at p.
func (o *rOrder) can(p *big.Int) *big.Int {
	v := o.open
	if o.buy {
		v = bmin(v, bdiv(bmul(bsub(o.offer, o.paid), e18), p))
	}
	if bfloor(p, v).Sign() == 0 {
		return new(big.Int)
	}
	return v
}

func (o *rOrder) fill(a, p *big.Int) (qdiff *big.Int) {
	o.nfills++
	o.open = bsub(o.open, a)
	if o.buy {
		q := bceil(p, a)
		o.paid = badd(o.paid, q)
		o.recv = badd(o.recv, a)
		return q
	}
	q := bfloor(p, a)
	o.paid = badd(o.paid, a)
	o.recv = badd(o.recv, q)
	return new(big.Int).Neg(q)
}

// before: priority within one level and batch.
func (o *rOrder) before(x *rOrder) bool {
	if c := o.amt.Cmp(x.amt); c != 0 {
		return c > 0
	}
	if o.pool != x.pool {
		return !o.pool
	}
	return o.id < x.id
}

type rLevel struct {
	price  *big.Int
	orders []*rOrder
}

type rBook struct {
	buys, sells []*rLevel
	qdiff       *big.Int
}

func newRBook(os []*rOrder) *rBook {
	b := &rBook{qdiff: new(big.Int)}
	for _, o := range os {
		if o.can(o.price).Sign() <= 0 {
			continue
		}
		side := &b.sells
		if o.buy {
			side = &b.buys
		}
		var l *rLevel
		for _, x := range *side {
			if x.price.Cmp(o.price) == 0 {
				l = x
			}
		}
		if l == nil {
			l = &rLevel{price: o.price}
			*side = append(*side, l)
		}
		l.orders = append(l.orders, o)
	}
	sort.SliceStable(b.buys, func(i, j int) bool { return b.buys[i].price.Cmp(b.buys[j].price) > 0 })
	sort.SliceStable(b.sells, func(i, j int) bool { return b.sells[i].price.Cmp(b.sells[j].price) < 0 })
	return b
}

func sumCan(os []*rOrder, p *big.Int) *big.Int {
	t := new(big.Int)
	for _, o := range os {
		t.Add(t, o.can(p))
	}
	return t
}

// share gives amt to the orders of one level: earlier batches first; within a
// batch proportionally to the order sizes, the rounding remainder by priority.
// It returns the amount shared out: a seller whose part is worth nothing does
// not trade, so that sellers may take a little less than amt.
func (b *rBook) share(l *rLevel, amt, p *big.Int) *big.Int {
	done := new(big.Int)
	byBatch := map[uint64][]*rOrder{}
	var ids []uint64
	for _, o := range l.orders {
		if _, ok := byBatch[o.batch]; !ok {
			ids = append(ids, o.batch)
		}
		byBatch[o.batch] = append(byBatch[o.batch], o)
	}
	sort.Slice(ids, func(i, j int) bool {
		if ids[i] == 0 || ids[j] == 0 {
			return ids[j] == 0 && ids[i] != 0
		}
		return ids[i] < ids[j]
	})
	left := amt
	for _, id := range ids {
		os := append([]*rOrder(nil), byBatch[id]...)
		c := sumCan(os, p)
		if c.Sign() == 0 {
			continue
		}
		if left.Cmp(c) >= 0 {
			for _, o := range os {
				if x := o.can(p); x.Sign() > 0 {
					b.qdiff.Add(b.qdiff, o.fill(x, p))
				}
			}
			left = bsub(left, c)
			done.Add(done, c)
		} else {
			sort.SliceStable(os, func(i, j int) bool { return os[i].before(os[j]) })
			done.Add(done, b.proportional(os, left, p))
			left = new(big.Int)
		}
		if left.Sign() == 0 {
			break
		}
	}
	return done
}

func (b *rBook) proportional(os []*rOrder, amt, p *big.Int) *big.Int {
	for {
		got := refShares(os, amt, p)
		// Orders whose part is worth nothing step aside for the others.
		var in []*rOrder
		for i, o := range os {
			if got[i].Sign() > 0 && (o.buy || bfloor(p, got[i]).Sign() > 0) {
				in = append(in, o)
			}
		}
		if len(in) == len(os) {
			t := new(big.Int)
			for i, o := range os {
				b.qdiff.Add(b.qdiff, o.fill(got[i], p))
				t.Add(t, got[i])
			}
			return t
		}
		if len(in) == 0 {
			if len(os) == 1 {
				return new(big.Int) // nothing can be traded
			}
			in = os[:len(os)-1]
		}
		os = in
	}
}

func refShares(os []*rOrder, amt, p *big.Int) []*big.Int {
	total := new(big.Int)
	for _, o := range os {
		total.Add(total, o.amt)
	}
	got := make([]*big.Int, len(os))
	used := new(big.Int)
	for i, o := range os {
		prop := bdiv(bmul(o.amt, e18), total)
		got[i] = bmin(o.can(p), bfloor(prop, amt))
		used.Add(used, got[i])
	}
	left := bsub(amt, used)
	for i, o := range os {
		x := bmin(left, bsub(o.can(p), got[i]))
		got[i] = badd(got[i], x)
		left = bsub(left, x)
	}
	return got
}

// single clears the book at one price.
func (b *rBook) single(p *big.Int) bool {
	var bs, ss []*rLevel
	for _, l := range b.buys {
		if l.price.Cmp(p) >= 0 {
			bs = append(bs, l)
		}
	}
	for _, l := range b.sells {
		if l.price.Cmp(p) <= 0 {
			ss = append(ss, l)
		}
	}
	tot := func(ls []*rLevel) *big.Int {
		t := new(big.Int)
		for _, l := range ls {
			t.Add(t, sumCan(l.orders, p))
		}
		return t
	}
	// Levels which cannot take part are dropped from the far end.
	for {
		if len(bs) == 0 || len(ss) == 0 {
			return false
		}
		dropped := false
		m := bmin(tot(bs), tot(ss))
		if rest := tot(bs[:len(bs)-1]); rest.Cmp(m) >= 0 {
			bs = bs[:len(bs)-1]
			dropped = true
		}
		if len(bs) == 0 {
			return false
		}
		m = bmin(tot(bs), tot(ss))
		rest := tot(ss[:len(ss)-1])
		if part := bsub(m, rest); part.Sign() <= 0 || bfloor(p, part).Sign() == 0 {
			ss = ss[:len(ss)-1]
			dropped = true
		}
		if !dropped {
			break
		}
	}
	// The buyers get exactly what the sellers can give.
	m := bmin(tot(bs), tot(ss))
	for _, side := range [][]*rLevel{ss, bs} {
		left, done := m, new(big.Int)
		for _, l := range side {
			x := bmin(sumCan(l.orders, p), left)
			if x.Sign() > 0 {
				done.Add(done, b.share(l, x, p))
			}
			left = bsub(left, x)
		}
		if m = done; m.Sign() == 0 {
			return false
		}
	}
	return true
}

// run clears the book against the last price: one uniform price when supply
// and demand around it balance, otherwise a walk up (or down) the levels.
func (b *rBook) run(last *big.Int) (price *big.Int, matched bool) {
	if len(b.buys) == 0 || len(b.sells) == 0 {
		return nil, false
	}
	over, at, under, sat := new(big.Int), new(big.Int), new(big.Int), new(big.Int)
	for _, l := range b.buys {
		switch l.price.Cmp(last) {
		case 1:
			over.Add(over, sumCan(l.orders, last))
		case 0:
			at.Add(at, sumCan(l.orders, last))
		}
	}
	for _, l := range b.sells {
		switch l.price.Cmp(last) {
		case -1:
			under.Add(under, sumCan(l.orders, last))
		case 0:
			sat.Add(sat, sumCan(l.orders, last))
		}
	}
	dir := 0
	if over.Cmp(badd(sat, under)) > 0 {
		dir = 1
	} else if under.Cmp(badd(at, over)) > 0 {
		dir = -1
	}
	price = last
	matched = b.single(last)
	if dir == 0 {
		return
	}
	bi, si := 0, 0
	for bi < len(b.buys) && si < len(b.sells) && b.buys[bi].price.Cmp(b.sells[si].price) >= 0 {
		bl, sl := b.buys[bi], b.sells[si]
		p := sl.price
		if dir < 0 {
			p = bl.price
		}
		bo, so := sumCan(bl.orders, p), sumCan(sl.orders, p)
		if bo.Sign() == 0 {
			bi++
			continue
		}
		if so.Sign() == 0 {
			si++
			continue
		}
		if bo.Cmp(so) <= 0 {
			bi++
		}
		if so.Cmp(bo) <= 0 {
			si++
		}
		x := b.share(sl, bmin(bo, so), p)
		if x.Sign() == 0 {
			continue
		}
		b.share(bl, x, p)
		price, matched = p, true
	}
	return
}

// ---- clearing price of a pair's first batch -------------------------------

func refTickIdx(p *big.Int, prec int) int64 { // index of the (down) tick of p
	s := p.String()
	l := len(s) - 1
	head := s
	if l > prec {
		head = s[:prec+1]
	}
	h, _ := new(big.Int).SetString(head, 10)
	p10 := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(prec)), nil).Int64()
	return int64(l-prec)*9*p10 + h.Int64() - p10
}

func refTickAt(i int64, prec int) *big.Int {
	p10 := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(prec)), nil).Int64()
	e := i / (9 * p10)
	m := p10 + i%(9*p10)
	return bmul(big.NewInt(m), new(big.Int).Exp(big.NewInt(10), big.NewInt(e), nil))
}

type rCurve struct {
	buyOver   func(p *big.Int) *big.Int
	sellUnder func(p *big.Int) *big.Int
}

// firstPrice scans all ticks of [lo,hi].
func refFirstPrice(c rCurve, lo, hi *big.Int, prec int) (*big.Int, bool) {
	a, z := refTickIdx(lo, prec)-1, refTickIdx(hi, prec)+1
	if a < 0 {
		a = 0
	}
	var i, j int64 = -1, -1
	for t := a; t <= z; t++ {
		s := c.sellUnder(refTickAt(t, prec))
		if s.Sign() > 0 && c.buyOver(refTickAt(t+1, prec)).Cmp(s) <= 0 {
			i = t
			break
		}
	}
	for t := z; t >= a; t-- {
		b := c.buyOver(refTickAt(t, prec))
		if b.Sign() <= 0 {
			continue
		}
		under := new(big.Int)
		if t > 0 {
			under = c.sellUnder(refTickAt(t-1, prec))
		}
		if b.Cmp(under) >= 0 {
			j = t
			break
		}
	}
	if i < 0 || j < 0 {
		return nil, false
	}
	mid := new(big.Int).Quo(badd(refTickAt(i, prec), refTickAt(j, prec)), big.NewInt(2))
	k := refTickIdx(mid, prec)
	if refTickAt(k, prec).Cmp(mid) != 0 && k%2 != 0 {
		k++ // an exact tie between two ticks goes to the even one
	}
	return refTickAt(k, prec), true
}
