package main

import (
	"fmt"
	"sort"
	"time"

	"cosmossdk.io/core/header"
	sm "cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/types"
)

func headerInfo(h int64, t time.Time) header.Info {
	return header.Info{Height: h, Time: t, ChainID: "verif"}
}

type ID2 [2]uint64

// Snap is the observable state around a step.
type Snap struct {
	Height   int64
	Time     time.Time
	Params   types.Params
	LastPair uint64
	LastPool uint64
	Pairs    map[uint64]types.Pair
	Pools    map[uint64]types.Pool
	Dep      map[ID2]types.DepositRequest
	Wd       map[ID2]types.WithdrawRequest
	Ord      map[ID2]types.Order
	MM       map[string]uint32 // orderer|pair
	Bal      map[string]map[string]sm.Int
	Sup      map[string]sm.Int
	Dup      []string // records seen twice while iterating
}

func (w *World) Snapshot() *Snap { return takeSnap(w.App.DexKeeper, w.App.BankKeeper, w.Ctx) }

type bankReader interface {
	IterateAllBalances(ctx contextContext, cb func(sdk.AccAddress, sdk.Coin) bool)
	IterateTotalSupply(ctx contextContext, cb func(sdk.Coin) bool)
}

func mmKey(orderer string, pair uint64) string { return fmt.Sprintf("%s|%d", orderer, pair) }

func takeSnap(k dexKeeper, b bankReader, ctx sdk.Context) *Snap {
	s := &Snap{
		Height: ctx.BlockHeight(), Time: ctx.BlockTime(), Params: k.GetParams(ctx),
		LastPair: k.GetLastPairId(ctx), LastPool: k.GetLastPoolId(ctx),
		Pairs: map[uint64]types.Pair{}, Pools: map[uint64]types.Pool{}, Dep: map[ID2]types.DepositRequest{},
		Wd: map[ID2]types.WithdrawRequest{}, Ord: map[ID2]types.Order{}, MM: map[string]uint32{},
		Bal: map[string]map[string]sm.Int{}, Sup: map[string]sm.Int{},
	}
	for _, p := range k.GetAllPairs(ctx) {
		s.Pairs[p.Id] = p
	}
	for _, p := range k.GetAllPools(ctx) {
		s.Pools[p.Id] = p
	}
	for _, r := range k.GetAllDepositRequests(ctx) {
		s.Dep[ID2{r.PoolId, r.Id}] = r
	}
	for _, r := range k.GetAllWithdrawRequests(ctx) {
		s.Wd[ID2{r.PoolId, r.Id}] = r
	}
	for _, o := range k.GetAllOrders(ctx) {
		s.Ord[ID2{o.PairId, o.Id}] = o
	}
	k.IterateAllNumMMOrders(ctx, func(a sdk.AccAddress, pairId uint64, n uint32) bool {
		s.MM[mmKey(a.String(), pairId)] = n
		return false
	})
	b.IterateAllBalances(ctx, func(a sdk.AccAddress, c sdk.Coin) bool {
		as := a.String()
		m := s.Bal[as]
		if m == nil {
			m = map[string]sm.Int{}
			s.Bal[as] = m
		}
		m[c.Denom] = c.Amount
		return false
	})
	b.IterateTotalSupply(ctx, func(c sdk.Coin) bool {
		s.Sup[c.Denom] = c.Amount
		return false
	})
	return s
}

func (s *Snap) B(addr, denom string) sm.Int {
	if v, ok := s.Bal[addr][denom]; ok {
		return v
	}
	return sm.ZeroInt()
}

func (s *Snap) Supply(denom string) sm.Int {
	if v, ok := s.Sup[denom]; ok {
		return v
	}
	return sm.ZeroInt()
}

func (s *Snap) PairIDs() []uint64 { return sortedU(s.Pairs) }
func (s *Snap) PoolIDs() []uint64 { return sortedU(s.Pools) }

func sortedU[V any](m map[uint64]V) []uint64 {
	out := make([]uint64, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func sortedID2[V any](m map[ID2]V) []ID2 {
	out := make([]ID2, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i][0] != out[j][0] {
			return out[i][0] < out[j][0]
		}
		return out[i][1] < out[j][1]
	})
	return out
}

// Delta maps address|denom to a signed change.
type Delta map[string]map[string]sm.Int

func (d Delta) Add(addr, denom string, v sm.Int) {
	if v.IsNil() || v.IsZero() {
		return
	}
	m := d[addr]
	if m == nil {
		m = map[string]sm.Int{}
		d[addr] = m
	}
	if o, ok := m[denom]; ok {
		v = o.Add(v)
	}
	if v.IsZero() {
		delete(m, denom)
	} else {
		m[denom] = v
	}
}

func (d Delta) AddCoins(addr string, c sdk.Coins, sign int64) {
	for _, x := range c {
		d.Add(addr, x.Denom, x.Amount.MulRaw(sign))
	}
}

func (d Delta) Move(from, to string, c sdk.Coins) {
	d.AddCoins(from, c, -1)
	d.AddCoins(to, c, 1)
}

func (d Delta) Get(addr, denom string) sm.Int {
	if v, ok := d[addr][denom]; ok {
		return v
	}
	return sm.ZeroInt()
}

// balDelta returns post-pre balances.
func balDelta(pre, post *Snap) Delta {
	d := Delta{}
	for a, m := range post.Bal {
		for den, v := range m {
			d.Add(a, den, v.Sub(pre.B(a, den)))
		}
	}
	for a, m := range pre.Bal {
		for den, v := range m {
			if _, ok := post.Bal[a][den]; !ok {
				d.Add(a, den, v.Neg())
			}
		}
	}
	return d
}

// diffDelta lists differences between two deltas.
func diffDelta(got, want Delta) []string {
	var out []string
	seen := map[string]bool{}
	for _, src := range []Delta{got, want} {
		for a, m := range src {
			for den := range m {
				k := a + "|" + den
				if seen[k] {
					continue
				}
				seen[k] = true
				if g, x := got.Get(a, den), want.Get(a, den); !g.Equal(x) {
					out = append(out, fmt.Sprintf("%s %s: changed by %s, expected %s", a, den, g, x))
				}
			}
		}
	}
	sort.Strings(out)
	return out
}
