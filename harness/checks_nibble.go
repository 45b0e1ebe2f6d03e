package main

import (
	"math/rand"
	"time"

	sm "cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/types"
)

// Resting orders which are filled bit by bit over many batches, with amounts so
// small that each fill's rounding counts.
func registerNibbles() {
	for _, p := range []string{"C01", "C02", "C03", "C06", "C12", "C14", "C21", "C24"} {
		addFamily(p, &Family{Name: "nibbles", N: n(64, 2000), Run: nibbles})
	}
}

func nibbles(idx int, seed int64, tier string, rep *Reporter) {
	r := rand.New(rand.NewSource(seed))
	m := NewDexMon(rep)
	coins := sdk.NewCoins()
	for _, d := range scenarioDenoms {
		coins = coins.Add(sdk.NewCoin(d, sm.NewIntWithDecimal(1, 20)))
	}
	w := NewWorld(subSeed(seed, "w"), GenesisOpts{NumUsers: 5, Coins: coins}, rep, m)
	p := types.DefaultParams()
	prec := 1 + r.Intn(4)
	p.TickPrecision = uint32(prec)
	p.MaxPriceLimitRatio = []sm.LegacyDec{dec("0.1"), dec("0.3"), dec("0.9")}[r.Intn(3)]
	p.MaxOrderLifespan = 48 * time.Hour
	p.MinInitialDepositAmount = sm.NewInt(1000)
	p.BatchSize = 1
	w.SetParams(p)
	u := w.Users
	w.BeginBlock(5 * time.Second)
	w.Deliver(types.NewMsgCreatePair(u[0], "aaa", "bbb"))
	base := refDownTick(mulPow10(sm.LegacyNewDec(100+r.Int63n(900)), -4+r.Intn(5)), prec) // 0.01 .. 1000
	// the least amount which is worth an order at a price, and a little more
	least := func(pr sm.LegacyDec) sm.Int {
		a := sm.LegacyNewDec(100).Quo(pr).Ceil().TruncateInt()
		return sm.MaxInt(a, sm.NewInt(100)).AddRaw(r.Int63n(90))
	}
	place := func(buy bool, pr sm.LegacyDec, amt sm.Int, life time.Duration) {
		if lp := w.Prev.Pairs[1].LastPrice; lp != nil {
			lo, hi := refBand(*lp, p.MaxPriceLimitRatio, prec)
			pr = sm.LegacyMaxDec(lo, sm.LegacyMinDec(hi, pr))
		}
		if !pr.IsPositive() {
			return
		}
		who := u[1+r.Intn(4)]
		dir, oc, dd := types.OrderDirectionSell, sdk.NewCoin("aaa", amt), "bbb"
		if buy {
			pr = refDownTick(pr, prec)
			dir, oc, dd = types.OrderDirectionBuy, sdk.NewCoin("bbb", refOffer(true, pr, amt)), "aaa"
		} else {
			pr = refUpTick(pr, prec)
		}
		if r.Intn(5) == 0 {
			w.Deliver(types.NewMsgMMOrder(who, 1, dir, oc, dd, pr, amt, life))
		} else {
			w.Deliver(types.NewMsgLimitOrder(who, 1, dir, oc, dd, pr, amt, life))
		}
	}
	at, many := base, int64(2+r.Intn(10))
	rest := []time.Duration{time.Hour, 24 * time.Hour, 30 * time.Second}
	pressure := r.Intn(2) == 0
	if r.Intn(3) == 0 { // a small pool beside the orders
		y := least(base).MulRaw(20)
		w.Deliver(types.NewMsgCreatePool(u[0], 1, coins2("bbb", base.MulInt(y).TruncateInt().AddRaw(1000), "aaa", y.AddRaw(1000))))
	}
	for b := 0; b < 22; b++ {
		if lp := w.Prev.Pairs[1].LastPrice; lp != nil {
			at = *lp
		}
		if r.Intn(4) == 0 {
			pressure = !pressure
		}
		tick := func(k int) sm.LegacyDec {
			pr := at
			for i := 0; i < k; i++ {
				pr = pr.Add(refGapAt(pr, prec))
			}
			for i := 0; i > k; i-- {
				if d := refDownTick(pr.Sub(sm.LegacySmallestDec()), prec); d.IsPositive() {
					pr = d
				}
			}
			return pr
		}
		if b%4 == 0 || r.Intn(4) == 0 { // large orders on both sides
			for i := 0; i < 1+r.Intn(3); i++ {
				pr := tick(-r.Intn(4))
				place(true, pr, least(pr).MulRaw(1+r.Int63n(many)), rest[r.Intn(3)])
			}
			for i := 0; i < 1+r.Intn(3); i++ {
				pr := tick(r.Intn(4))
				place(false, pr, least(pr).MulRaw(1+r.Int63n(many)), rest[r.Intn(3)])
			}
		}
		for i := 0; i < 1+r.Intn(6); i++ { // small ones which cross them
			k := r.Intn(6) - 1
			if !pressure {
				k = -k
			}
			pr := tick(k)
			var life time.Duration
			if r.Intn(3) == 0 {
				life = rest[r.Intn(3)]
			}
			place(pressure, pr, least(pr), life)
		}
		if r.Intn(6) == 0 {
			if k, ok := firstOld(w.Prev); ok {
				o := w.Prev.Ord[k]
				w.Deliver(types.NewMsgCancelOrder(o.GetOrdererAcc(), k[0], k[1]))
			}
		}
		if !w.EndBlock() || !w.BeginBlock(5*time.Second) {
			break
		}
	}
	rep.Count("blocks", w.Height)
	rep.Case(w.digest(), m.nontriv > 0, func() string { return joinLines(w.Trace, 25) })
}

// firstOld is an order which could be cancelled now.
func firstOld(s *Snap) (ID2, bool) {
	for _, k := range sortedID2(s.Ord) {
		if o := s.Ord[k]; ordLive(o.Status) && o.BatchId < s.Pairs[k[0]].CurrentBatchId {
			return k, true
		}
	}
	return ID2{}, false
}
