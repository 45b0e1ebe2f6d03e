package main

import (
	"math/rand"
	"time"

	sm "cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"defund/x/dex/types"
)

// The limits family drives histories made only of messages anyone may submit
// towards the ends of what amounts, prices, reserves and parameters can be:
// coins worth 10^40 meeting prices of 10^38, prices of a few 10^-18, pools
// whose reserves were blown up by transfers or have nearly vanished. Blocks
// must go on and every ledger rule must keep holding.
func limitsCase(idx int, seed int64, tier string, rep *Reporter) {
	r := rand.New(rand.NewSource(seed))
	kind := idx % 6
	exp := []int{42, 42, 75, 75, 42, 75}[kind]
	if kind == 2 || kind == 4 {
		exp = []int{34, 42, 60, 75}[r.Intn(4)]
	}
	funds := sdk.NewCoins()
	for _, d := range scenarioDenoms {
		funds = funds.Add(sdk.NewCoin(d, sm.NewIntWithDecimal(1, exp)))
	}
	dm := NewDexMon(rep)
	w := NewWorld(subSeed(seed, "w"), GenesisOpts{NumUsers: 5, Coins: funds}, rep, dm)
	p := randParams(r)
	p.BatchSize = 1
	p.MaxNumActivePoolsPerPair = 20
	p.MinInitialDepositAmount = sm.NewInt([]int64{1, 100, 1000000}[r.Intn(3)])
	p.PairCreationFee, p.PoolCreationFee = sdk.NewCoins(), sdk.NewCoins()
	p.MaxPriceLimitRatio = []sm.LegacyDec{dec("0.1"), dec("0.5"), dec("0.9"), dec("0.999")}[r.Intn(4)]
	p.TickPrecision = uint32(r.Intn(5))
	if kind == 5 {
		p.TickPrecision = extremePrec(r)
	}
	w.SetParams(p)
	prec := func() int { return int(w.Prev.Params.TickPrecision) }
	u := func() sdk.AccAddress { return w.Users[r.Intn(len(w.Users))] }
	limit := func(buy bool, price sm.LegacyDec, amt sm.Int) {
		if !price.IsPositive() {
			return
		}
		price = refDownTick(price, prec())
		if price.IsZero() {
			return
		}
		dir, od, dd, off := types.OrderDirectionSell, "aaa", "bbb", amt
		if buy {
			dir, od, dd = types.OrderDirectionBuy, "bbb", "aaa"
			if price.BigInt().BitLen()+amt.BigInt().BitLen() > 300 {
				return
			}
			off = refOffer(true, price, amt)
		}
		w.Deliver(types.NewMsgLimitOrder(u(), 1, dir, sdk.NewCoin(od, off), dd, price, amt,
			[]time.Duration{0, time.Minute, 10 * time.Second}[r.Intn(3)]))
	}
	limits := func() (lo, hi sm.LegacyDec, ok bool) {
		pr := w.Prev.Pairs[1]
		if pr.LastPrice == nil {
			return lo, hi, false
		}
		lp := *pr.LastPrice
		ratio := w.Prev.Params.MaxPriceLimitRatio
		return lp.Mul(sm.LegacyOneDec().Sub(ratio)), lp.Mul(sm.LegacyOneDec().Add(ratio)), true
	}
	basic := func(x, y sm.Int) {
		w.Deliver(types.NewMsgCreatePool(u(), 1, coins2("bbb", x, "aaa", y)))
	}
	ranged := func(x, y sm.Int, mn, mx, ini sm.LegacyDec) {
		w.Deliver(types.NewMsgCreateRangedPool(u(), 1, coins2("bbb", x, "aaa", y), refDownTick(mn, prec()), refDownTick(mx, prec()), refDownTick(ini, prec())))
	}
	donate := func(lo, hi float64) {
		if id, ok := pickKey(r, w.Prev.Pools); ok {
			d := []string{"aaa", "bbb"}[r.Intn(2)]
			w.Deliver(banktypes.NewMsgSend(u(), w.Prev.Pools[id].GetReserveAddressAcc(), sdk.NewCoins(sdk.NewCoin(d, logUniform(r, lo, hi)))))
		}
	}
	liquidity := func() {
		id, ok := pickKey(r, w.Prev.Pools)
		if !ok {
			return
		}
		pl := w.Prev.Pools[id]
		if r.Intn(2) == 0 {
			w.Deliver(types.NewMsgDeposit(u(), id, coins2("bbb", logUniform(r, 0, 40), "aaa", logUniform(r, 0, 40))))
			return
		}
		for _, a := range w.Users {
			if b := w.Prev.B(a.String(), pl.PoolCoinDenom); b.IsPositive() {
				amt := b
				switch r.Intn(4) {
				case 0:
					amt = mulQuoInt(b, 1, 1000).AddRaw(1)
				case 1:
					amt = b.SubRaw(1)
				case 2:
					amt = sm.OneInt()
				}
				if amt.IsPositive() {
					w.Deliver(types.NewMsgWithdraw(a, id, sdk.NewCoin(pl.PoolCoinDenom, amt)))
				}
				return
			}
		}
	}
	for b := 0; b < 14; b++ {
		if !w.BeginBlock([]time.Duration{time.Second, 5 * time.Second, 30 * time.Second}[r.Intn(3)]) {
			break
		}
		if b == 0 {
			w.Deliver(types.NewMsgCreatePair(w.Users[0], "aaa", "bbb"))
		}
		lo, hi, traded := limits()
		switch kind {
		case 0: // the largest amounts against the largest prices
			for i := 0; i < 1+r.Intn(5); i++ {
				pr := decPow(r, -4, 39)
				if traded {
					pr = lo.Add(hi.Sub(lo).Mul(decPow(r, -3, 0)))
				}
				if r.Intn(2) == 0 {
					limit(false, pr, logUniform(r, 34, 40))
				} else {
					limit(true, pr, logUniform(r, 2, 12))
				}
			}
			if b == 0 {
				limit(false, decPow(r, -4, 3), sm.NewIntWithDecimal(1, 40))
				limit(true, sm.LegacyNewDecFromInt(sm.NewIntWithDecimal(1, 36+r.Intn(3))), sm.NewInt(100))
			}
		case 1: // the smallest prices
			for i := 0; i < 2+r.Intn(4); i++ {
				pr := decPow(r, -18, -17+float64(prec()))
				if traded {
					pr = lo.Add(hi.Sub(lo).Mul(decPow(r, -2, 0)))
					if r.Intn(3) == 0 {
						pr = lo
					}
				}
				limit(r.Intn(2) == 0, pr, logUniform(r, 20, 39.9))
			}
			if b == 0 {
				low := refDownTick(sm.LegacyNewDecWithPrec(1, int64(18-prec())), prec())
				limit(true, low, logUniform(r, 32, 38))
				limit(false, low, logUniform(r, 32, 38))
			}
			if r.Intn(4) == 0 {
				basic(logUniform(r, 6, 26), logUniform(r, 20, 40))
			}
			if r.Intn(4) == 0 {
				mn := decPow(r, -15, -12)
				ranged(logUniform(r, 1, 26), logUniform(r, 8, 40), mn, mn.Mul(decPow(r, 0.01, 4)), mn)
			}
		case 2, 3: // reserves nobody deposited
			if b < 3 {
				x, y := logUniform(r, 2, 40), logUniform(r, 2, 40)
				if r.Intn(2) == 0 {
					basic(x, y)
				}
				ini := decPow(r, -6, 10)
				mn, mx := ini, ini.Mul(decPow(r, 0.001, 6))
				switch r.Intn(3) {
				case 1:
					mn, mx = ini.Mul(decPow(r, -5, -0.01)), ini
				case 2:
					mn = ini.Mul(decPow(r, -5, -0.01))
				}
				ranged(x, y, mn, mx, ini)
			}
			for i := 0; i < r.Intn(3); i++ {
				donate(0, float64(exp)-1)
			}
			for i := 0; i < r.Intn(3); i++ {
				liquidity()
			}
			for i := 0; i < 1+r.Intn(4); i++ {
				pr := decPow(r, -8, 16)
				if traded {
					pr = lo.Add(hi.Sub(lo).Mul(decPow(r, -2, 0)))
				}
				limit(r.Intn(2) == 0, pr, logUniform(r, 2, 24))
			}
		case 4: // a pool of nearly worthless base coins
			if b == 0 {
				basic(logUniform(r, 20, 27), logUniform(r, 38, 40))
				if r.Intn(2) == 0 {
					mn := decPow(r, -15, -13)
					ranged(logUniform(r, 20, 27), logUniform(r, 30, 40), mn, mn.Mul(decPow(r, 0.01, 4)), mn)
				}
			}
			if b < 3 && exp > 40 {
				for i := 0; i < 1+r.Intn(3); i++ {
					if id, ok := pickKey(r, w.Prev.Pools); ok {
						top := float64(exp) - 4
						x := top - 14 - r.Float64()*3
						w.Deliver(banktypes.NewMsgSend(u(), w.Prev.Pools[id].GetReserveAddressAcc(), sdk.NewCoins(sdk.NewCoin("aaa", logUniform(r, top-1, top)), sdk.NewCoin("bbb", logUniform(r, x, x+1)))))
					}
				}
			}
			for i := 0; i < 1+r.Intn(4); i++ {
				pr := decPow(r, -16, -11)
				if traded {
					pr = lo.Add(hi.Sub(lo).Mul(decPow(r, -2, 0)))
				}
				limit(r.Intn(2) == 0, pr, logUniform(r, 20, 38))
			}
			if r.Intn(3) == 0 {
				liquidity()
			}
		case 5: // pools that nearly vanish, and a price grid that changes
			if b < 4 {
				ini := decPow(r, -12, 12)
				mn, mx := ini, ini.Mul(decPow(r, 0.001, 8))
				if r.Intn(2) == 0 {
					mn, mx = ini.Mul(decPow(r, -6, -0.001)), ini
				}
				x, y := logUniform(r, 0, 8), logUniform(r, 0, 8)
				switch r.Intn(3) {
				case 0:
					x = sm.ZeroInt()
				case 1:
					y = sm.ZeroInt()
				}
				ranged(x, y, mn, mx, ini)
				if r.Intn(2) == 0 {
					basic(logUniform(r, 0, 8), logUniform(r, 0, 8))
				}
			}
			for i := 0; i < 1+r.Intn(4); i++ {
				pr := decPow(r, -12, 12)
				if traded {
					pr = lo.Add(hi.Sub(lo).Mul(decPow(r, -3, 0)))
				}
				limit(r.Intn(2) == 0, pr, logUniform(r, 2, 20))
			}
			for i := 0; i < r.Intn(3); i++ {
				liquidity()
			}
			if r.Intn(4) == 0 {
				pp := w.Prev.Params
				pp.TickPrecision = uint32(r.Intn(10))
				w.Deliver(&types.MsgUpdateParams{Authority: govAuthority().String(), Params: pp})
			}
		}
		if !w.EndBlock() {
			break
		}
	}
	if w.Dead != "" {
		rep.Count("chain_halts", 1)
		rep.Halts = append(rep.Halts, clip(w.Dead, 400))
	}
	rep.Count("limits_blocks", w.Height)
	rep.Case(w.digest(), dm.nontriv > 0, func() string { return joinLines(w.Trace, 25) })
}

func limitsFamily(q, t int) *Family {
	return &Family{Name: "limits", N: n(q, t), Run: limitsCase}
}
