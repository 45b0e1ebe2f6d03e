package main

// Query answers against the records (C15) and the order book (C19).

import (
	"fmt"
	"math/rand"
	"time"

	sm "cosmossdk.io/math"
	pruningtypes "cosmossdk.io/store/pruning/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"defund/x/dex/types"
)

// queryMon asks between the steps of a history.
type queryMon struct {
	rep     *Reporter
	r       *rand.Rand
	prop    string
	p       float64 // of asking after a step
	asked   int
	nontriv bool
}

func (m *queryMon) Observe(w *World, st *Step, pre, post *Snap) {
	p := m.p
	if post.Params.TickPrecision > 3 {
		p /= 4 // quoting costs ten times more
	}
	if w.Dead != "" || m.r.Float64() >= p {
		return
	}
	if m.prop == "C15" && st.Kind != StepEnd {
		return
	}
	m.ask(w, post)
}

func (m *queryMon) ask(w *World, s *Snap) {
	m.asked++
	var out []string
	switch m.prop {
	case "C15":
		out = queryCheck(w.App, w.Ctx, s, m.r, m.rep)
		m.nontriv = m.nontriv || len(s.Ord) > 0 || len(s.Pools) > 0
	case "C19":
		ask := routeAsker(w.App, w.Ctx)
		for _, pid := range s.PairIDs() {
			for i := 0; i < 2; i++ {
				out = append(out, bookCheck(ask, s, pid, m.r, m.rep)...)
			}
			m.nontriv = m.nontriv || s.Pairs[pid].LastPrice != nil
		}
		if m.r.Intn(4) == 0 {
			out = append(out, bookEdges(ask, s, m.r, m.rep)...)
		}
	}
	if len(out) > 0 {
		m.rep.Violate(m.prop, "answer", "height %d: %s", w.Height, join(out, 4))
	}
	if d := snapDiff(s, w.Snapshot()); len(d) > 0 {
		m.rep.Violate(m.prop, "asking-changes", "height %d: asking changed the state: %s", w.Height, join(d, 4))
	}
}

func queryScenario(prop, kind string, p float64) func(int, int64, string, *Reporter) {
	return func(idx int, seed int64, tier string, rep *Reporter) {
		m := &queryMon{rep: rep, r: rand.New(rand.NewSource(subSeed(seed, "ask"))), prop: prop, p: p}
		w := RunScenario(seed, kind, rep, m)
		if w.Dead != "" {
			rep.Count("chain_halts", 1)
			rep.Halts = append(rep.Halts, clip(w.Dead, 400))
		} else {
			m.ask(w, w.Prev)
		}
		rep.Count("blocks", w.Height)
		rep.Count("states_asked", int64(m.asked))
		rep.Case(w.digest(), m.nontriv, func() string { return joinLines(w.Trace, 25) })
	}
}

// drainedPools brings pools close to and into depletion and asks after every
// step.
func drainedPools(prop string) func(int, int64, string, *Reporter) {
	return drained(func(seed int64, rep *Reporter) Monitor {
		return &queryMon{rep: rep, r: rand.New(rand.NewSource(subSeed(seed, "ask"))), prop: prop, p: 1}
	}, false)
}

// drained empties pools down to their last coins and closes them. With revive,
// closed pools then get coins by plain transfers, and requests and orders that
// would meet them if they were still open.
func drained(mon func(int64, *Reporter) Monitor, revive bool) func(int, int64, string, *Reporter) {
	return func(idx int, seed int64, tier string, rep *Reporter) {
		r := rand.New(rand.NewSource(seed))
		m := mon(seed, rep)
		coins := sdk.NewCoins()
		for _, d := range scenarioDenoms {
			coins = coins.Add(sdk.NewCoin(d, sm.NewIntWithDecimal(1, 20)))
		}
		w := NewWorld(subSeed(seed, "w"), GenesisOpts{NumUsers: 3, Coins: coins}, rep, m)
		p := types.DefaultParams()
		p.WithdrawFeeRate = []sm.LegacyDec{dec("0"), dec("0.003"), dec("0.5")}[r.Intn(3)]
		p.TickPrecision = uint32(1 + r.Intn(3))
		p.MaxPriceLimitRatio = []sm.LegacyDec{dec("0.1"), dec("0.5"), dec("0.9")}[r.Intn(3)]
		p.MinInitialDepositAmount = sm.NewInt(100)
		w.SetParams(p)
		u := w.Users
		end := func() bool { return w.EndBlock() && w.BeginBlock(5*time.Second) }
		w.BeginBlock(5 * time.Second)
		w.Deliver(types.NewMsgCreatePair(u[0], "aaa", "bbb"))
		for i := 0; i < 1+r.Intn(2); i++ {
			e := r.Intn(7) - 3
			y := logUniform(r, 6, 9)
			x := mulPow10(sm.LegacyNewDecFromInt(y), e).TruncateInt().AddRaw(100)
			y = y.AddRaw(100)
			pr := refDownTick(sm.LegacyNewDecFromInt(x).QuoInt(y), int(p.TickPrecision))
			if r.Intn(2) == 0 {
				w.Deliver(types.NewMsgCreatePool(u[0], 1, coins2("bbb", x, "aaa", y)))
			} else {
				w.Deliver(types.NewMsgCreateRangedPool(u[0], 1, coins2("bbb", x, "aaa", y),
					refDownTick(pr.MulInt64(9).QuoInt64(10), int(p.TickPrecision)), refUpTick(pr.MulInt64(11).QuoInt64(10), int(p.TickPrecision)), pr))
			}
		}
		for b := 0; b < 14; b++ {
			s := w.Prev
			for _, id := range s.PoolIDs() {
				pl := s.Pools[id]
				have := s.B(u[0].String(), pl.PoolCoinDenom)
				switch r.Intn(4) {
				case 0: // leave a few shares, down to one coin of a reserve
					left := s.Supply(pl.PoolCoinDenom)
					rx, ry := s.B(pl.ReserveAddress, "bbb"), s.B(pl.ReserveAddress, "aaa")
					min := sm.MaxInt(sm.OneInt(), sm.MinInt(rx, ry))
					keep := left.Quo(min).MulRaw(1 + r.Int63n(4)).AddRaw(r.Int63n(5))
					if amt := have.Sub(keep); amt.IsPositive() {
						w.Deliver(types.NewMsgWithdraw(u[0], id, sdk.NewCoin(pl.PoolCoinDenom, amt)))
					}
				case 1:
					if have.IsPositive() && r.Intn(4) == 0 {
						w.Deliver(types.NewMsgWithdraw(u[0], id, sdk.NewCoin(pl.PoolCoinDenom, have)))
					}
				case 2:
					w.Deliver(types.NewMsgDeposit(u[1], id, coins2("bbb", sm.NewInt(1+r.Int63n(1000)), "aaa", sm.NewInt(1+r.Int63n(1000)))))
				}
			}
			for _, id := range s.PoolIDs() {
				pl := s.Pools[id]
				if !pl.Disabled || !revive {
					continue
				}
				rep.Count("closed_pool_blocks", 1)
				if s.Supply(pl.PoolCoinDenom).IsPositive() {
					rep.Count("closed_pool_with_shares_blocks", 1)
				}
				switch r.Intn(3) {
				case 0:
					for _, d := range []string{"aaa", "bbb"} {
						if r.Intn(4) > 0 {
							w.Deliver(banktypes.NewMsgSend(u[r.Intn(3)], pl.GetReserveAddressAcc(), sdk.NewCoins(sdk.NewCoin(d, logUniform(r, 1, 8)))))
						}
					}
				case 1:
					w.Deliver(types.NewMsgDeposit(u[1], id, coins2("bbb", sm.NewInt(1+r.Int63n(100000)), "aaa", sm.NewInt(1+r.Int63n(100000)))))
				case 2:
					if have := s.B(u[0].String(), pl.PoolCoinDenom); have.IsPositive() {
						w.Deliver(types.NewMsgWithdraw(u[0], id, sdk.NewCoin(pl.PoolCoinDenom, have.QuoRaw(1+r.Int63n(2)).AddRaw(1))))
					}
				}
				if r.Intn(4) == 0 { // its place may be taken
					w.Deliver(types.NewMsgCreatePool(u[0], 1, coins2("bbb", sm.NewInt(100+r.Int63n(1000000)), "aaa", sm.NewInt(100+r.Int63n(1000000)))))
				}
			}
			// Trade against what is left.
			if pair := s.Pairs[1]; pair.LastPrice != nil {
				lo, hi := refBand(*pair.LastPrice, p.MaxPriceLimitRatio, int(p.TickPrecision))
				amt := sm.NewInt(100 + r.Int63n(5000))
				if r.Intn(2) == 0 {
					w.Deliver(types.NewMsgLimitOrder(u[2], 1, types.OrderDirectionBuy, sdk.NewCoin("bbb", refOffer(true, hi, amt)), "aaa", hi, amt, 0))
				} else {
					w.Deliver(types.NewMsgLimitOrder(u[2], 1, types.OrderDirectionSell, sdk.NewCoin("aaa", amt), "bbb", lo, amt, 0))
				}
			} else {
				pr := sm.LegacyOneDec()
				for _, id := range s.PoolIDs() {
					pl := s.Pools[id]
					rx, ry := s.B(pl.ReserveAddress, "bbb"), s.B(pl.ReserveAddress, "aaa")
					if rx.IsPositive() && ry.IsPositive() {
						pr = refDownTick(sm.LegacyNewDecFromInt(rx).QuoInt(ry), int(p.TickPrecision))
					}
				}
				amt := sm.NewInt(5000)
				w.Deliver(types.NewMsgLimitOrder(u[1], 1, types.OrderDirectionBuy, sdk.NewCoin("bbb", refOffer(true, pr, amt)), "aaa", pr, amt, 0))
				w.Deliver(types.NewMsgLimitOrder(u[2], 1, types.OrderDirectionSell, sdk.NewCoin("aaa", amt), "bbb", pr, amt, 0))
			}
			for _, id := range w.Prev.PoolIDs() {
				pl := w.Prev.Pools[id]
				if !pl.Disabled && w.Prev.B(pl.ReserveAddress, "bbb").IsZero() != w.Prev.B(pl.ReserveAddress, "aaa").IsZero() {
					rep.Count("one_sided_open_pools", 1)
				}
			}
			if !end() {
				rep.Count("chain_halts", 1)
				rep.Halts = append(rep.Halts, clip(w.Dead, 400))
				break
			}
		}
		rep.Case(w.digest(), len(w.Prev.Pools) > 0, func() string { return joinLines(w.Trace, 25) })
	}
}

// c15Many fills one pair with more records than a default page holds.
func c15Many(idx int, seed int64, tier string, rep *Reporter) {
	r := rand.New(rand.NewSource(seed))
	m := &queryMon{rep: rep, r: rand.New(rand.NewSource(subSeed(seed, "ask"))), prop: "C15", p: 0}
	w := NewWorld(subSeed(seed, "w"), GenesisOpts{NumUsers: 3, Coins: sdk.NewCoins(sdk.NewInt64Coin("aaa", 1e18), sdk.NewInt64Coin("bbb", 1e18), sdk.NewInt64Coin("stake", 1e18))}, rep, m)
	w.BeginBlock(5 * time.Second)
	w.Deliver(types.NewMsgCreatePair(w.Users[0], "aaa", "bbb"))
	w.Deliver(types.NewMsgCreatePool(w.Users[0], 1, coins2("aaa", sm.NewInt(1e9), "bbb", sm.NewInt(1e9))))
	k := 101 + r.Intn(160)
	for i := 0; i < k; i++ {
		u := w.Users[r.Intn(2)]
		switch idx % 3 {
		case 0:
			a := sm.NewInt(100 + r.Int63n(100))
			pr := refDownTick(dec("0.95").Add(sm.LegacyNewDecWithPrec(r.Int63n(50), 3)), 4)
			w.Deliver(types.NewMsgLimitOrder(u, 1, types.OrderDirectionBuy, sdk.NewCoin("bbb", refOffer(true, pr, a)), "aaa", pr, a, time.Hour))
		case 1:
			w.Deliver(types.NewMsgDeposit(u, 1, coins2("aaa", sm.NewInt(100), "bbb", sm.NewInt(100+r.Int63n(9)))))
		case 2:
			w.Deliver(types.NewMsgWithdraw(w.Users[0], 1, sdk.NewCoin(types.PoolCoinDenom(1), sm.NewInt(1000+r.Int63n(9)))))
		}
	}
	m.ask(w, w.Prev)
	if w.EndBlock() {
		m.ask(w, w.Prev)
	}
	rep.Case(w.digest(), true, func() string { return joinLines(w.Trace, 12) })
}

// c15Heights asks a node for answers of its past heights.
func c15Heights(idx int, seed int64, tier string, rep *Reporter) {
	h := newHistory(seed, idx, dbm.NewMemDB(), baseapp.SetPruning(pruningtypes.NewPruningOptions(pruningtypes.PruningNothing)))
	r := rand.New(rand.NewSource(subSeed(seed, "heights")))
	snaps := map[int64]*Snap{}
	for i := 0; i < 16; i++ {
		if !h.next(rep) {
			break
		}
		if h.C().Height >= 2 {
			snaps[h.C().Height] = h.C().Snap()
		}
	}
	last := h.C().Height
	asked := map[int64]bool{}
	for k := 0; k < 5; k++ {
		at := 2 + r.Int63n(last-1)
		if k == 0 {
			at = last
		}
		if asked[at] || snaps[at] == nil {
			continue
		}
		asked[at] = true
		ask := abciAsker(h.C(), at)
		q := &qcheck{ask: ask, s: snaps[at], r: r, rep: rep}
		q.all()
		rep.Count("heights_asked", 1)
		if len(q.out) > 0 {
			rep.Violate("C15", "height", "asked at height %d of %d: %s", at, last, join(q.out, 4))
		}
	}
	rep.Case(h.digest(), h.trades() > 0, func() string { return joinLines(h.g.Trace, 20) })
}

func init() {
	c15 := &Check{Prop: "C15", Level: "exploration",
		Rule:        "A case is one random history (or a directed one with drained pools, long denominations or more records than a page) in which, at many states, every query is asked in several ways (unpaged, by key, by offset, reversed, random page sizes) and judged against a full scan of the records; one family asks a running node for past heights. Non-trivial when there were orders or pools to find; distinct by full trace.",
		Assumptions: []string{"The full records are read through the keeper's own iterators."},
		MinObserved: map[string]int64{"lookups": 5000, "listings_nonempty": 1000, "pages": 5000, "heights_asked": 20}}
	for _, k := range []struct {
		k    string
		q, t int
	}{{"mixed", 56, 1500}, {"orders", 16, 600}, {"pools", 32, 600}, {"mm", 16, 400}, {"cancel", 16, 400}, {"denoms", 40, 800}} {
		c15.Families = append(c15.Families, &Family{Name: "scenario-" + k.k, N: n(k.q, k.t), Run: queryScenario("C15", k.k, 0.15)})
	}
	c15.Families = append(c15.Families,
		&Family{Name: "drained", N: n(40, 800), Run: drainedPools("C15")},
		&Family{Name: "many", N: n(9, 90), Run: c15Many},
		&Family{Name: "heights", N: n(24, 400), Run: c15Heights})
	register(c15)
	c19 := &Check{Prop: "C19", Level: "exploration",
		Rule:        "A case is one random history in which, after many steps, the order book of every pair is asked with random units and step counts and compared, step by step, with the book rebuilt from the stored orders and the pools' quotes. Non-trivial when a pair had a price; distinct by full trace.",
		Assumptions: []string{"What a pool quotes in the band is taken from the pool itself (judged by C25)."},
		MinObserved: map[string]int64{"books_asked": 1000, "two_sided_books": 500, "crossed_books": 50, "steps_compared": 2000}}
	for _, k := range []struct {
		k    string
		q, t int
	}{{"mixed", 72, 2000}, {"orders", 72, 2000}, {"pools", 24, 800}, {"mm", 24, 600}, {"lowpools", 24, 600}, {"cancel", 16, 400}} {
		c19.Families = append(c19.Families, &Family{Name: "scenario-" + k.k, N: n(k.q, k.t), Run: queryScenario("C19", k.k, 0.12)})
	}
	c19.Families = append(c19.Families, &Family{Name: "drained", N: n(40, 800), Run: drainedPools("C19")})
	register(c19)
	_ = fmt.Sprint
}
