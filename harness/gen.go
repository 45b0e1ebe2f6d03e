package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"time"

	sm "cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"defund/x/dex/amm"
	"defund/x/dex/types"
)

// ---- random values -------------------------------------------------------

func logUniform(r *rand.Rand, lo, hi float64) sm.Int { // 10^lo .. 10^hi
	e := lo + r.Float64()*(hi-lo)
	f := new(big.Float).SetFloat64(math.Pow(10, e))
	i, _ := f.Int(nil)
	if r.Intn(4) != 0 && i.BitLen() > 20 {
		// randomise low digits
		i.Add(i, big.NewInt(r.Int63n(1<<20)))
	}
	return sm.NewIntFromBigInt(i)
}

func mulQuoInt(v sm.Int, num, den int64) sm.Int {
	z := new(big.Int).Mul(v.BigInt(), big.NewInt(num))
	z.Quo(z, big.NewInt(den))
	if z.BitLen() > 250 {
		return v
	}
	return sm.NewIntFromBigInt(z)
}

func decPow(r *rand.Rand, lo, hi float64) sm.LegacyDec {
	e := lo + r.Float64()*(hi-lo)
	fl := math.Floor(e)
	mant := math.Pow(10, e-fl)
	// mantissa with up to 8 digits
	md := int64(mant * 1e8)
	d := sm.LegacyNewDecFromBigIntWithPrec(big.NewInt(md), 8)
	return mulPow10(d, int(fl))
}

func mulPow10(d sm.LegacyDec, e int) sm.LegacyDec {
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(e))), nil)
	b := d.BigInt()
	if e >= 0 {
		b.Mul(b, p)
	} else {
		b.Quo(b, p)
	}
	if b.Sign() == 0 {
		b.SetInt64(1)
	}
	return sm.LegacyNewDecFromBigIntWithPrec(b, sm.LegacyPrecision)
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

func dec(s string) sm.LegacyDec { return sm.LegacyMustNewDecFromStr(s) }

func pickf(r *rand.Rand, ws ...float64) int {
	t := 0.0
	for _, w := range ws {
		t += w
	}
	x := r.Float64() * t
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return len(ws) - 1
}

// ---- independent price-tick arithmetic ------------------------------------
// A tick at precision p is a price whose decimal digit string (scaled by 10^18)
// has nothing but zeros after its first p+1 digits.

func refDownTick(price sm.LegacyDec, prec int) sm.LegacyDec {
	s := price.BigInt().String()
	if len(s) > prec+1 {
		s = s[:prec+1] + strings.Repeat("0", len(s)-prec-1)
	}
	b, _ := new(big.Int).SetString(s, 10)
	return sm.LegacyNewDecFromBigIntWithPrec(b, sm.LegacyPrecision)
}

func refGapAt(price sm.LegacyDec, prec int) sm.LegacyDec {
	s := price.BigInt().String()
	e := len(s) - 1 - prec
	if e < 0 {
		e = 0
	}
	return sm.LegacyNewDecFromBigIntWithPrec(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(e)), nil), sm.LegacyPrecision)
}

func refUpTick(price sm.LegacyDec, prec int) sm.LegacyDec {
	d := refDownTick(price, prec)
	if d.Equal(price) {
		return d
	}
	return d.Add(refGapAt(d, prec))
}

func refIsTick(price sm.LegacyDec, prec int) bool { return refDownTick(price, prec).Equal(price) }

func refLowestTick(prec int) sm.LegacyDec {
	return sm.LegacyNewDecFromBigIntWithPrec(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(prec)), nil), sm.LegacyPrecision)
}

func refBand(last, ratio sm.LegacyDec, prec int) (lo, hi sm.LegacyDec) {
	return refUpTick(last.Mul(sm.LegacyOneDec().Sub(ratio)), prec), refDownTick(last.Mul(sm.LegacyOneDec().Add(ratio)), prec)
}

// ---- scenario profile -----------------------------------------------------

type Profile struct {
	Name      string
	Users     int
	Blocks    int
	MaxMsgs   int
	Anchors   map[uint64]sm.LegacyDec
	AmtLo     float64
	AmtHi     float64
	W         map[string]float64 // op weights
	Dt        []time.Duration
	Lifespans []time.Duration
	Params    types.Params
	Scale     float64 // log10 of price scale
	TinyPools bool
	NPairs    int
	ParamChg  bool
	Extreme   bool     // amounts, prices and pools from the whole legal range
	Denoms    []string // trading denominations, at least four
}

func baseWeights() map[string]float64 {
	return map[string]float64{
		"limit": 30, "market": 6, "mm": 8, "cancel": 6, "cancelall": 3, "deposit": 8, "withdraw": 8, "pool": 3, "ranged": 4,
		"pair": 1, "send": 1.5, "bad": 4,
	}
}

func randParams(r *rand.Rand) types.Params {
	p := types.DefaultParams()
	p.BatchSize = []uint32{1, 1, 1, 2, 3, 5}[r.Intn(6)]
	p.TickPrecision = []uint32{3, 3, 2, 4, 1, 3, 2, 3}[r.Intn(8)]
	p.MaxPriceLimitRatio = []sm.LegacyDec{dec("0.1"), dec("0.1"), dec("0.03"), dec("0.2"), dec("0.05"), dec("0.4")}[r.Intn(6)]
	p.WithdrawFeeRate = []sm.LegacyDec{dec("0"), dec("0.003"), dec("0"), dec("0.1"), dec("0.000000000000000001"), dec("0.5")}[r.Intn(6)]
	p.MaxNumMarketMakingOrdersPerPair = []uint32{15, 1, 2, 3, 5}[r.Intn(5)]
	p.MaxOrderLifespan = []time.Duration{24 * time.Hour, 30 * time.Second, time.Hour}[r.Intn(3)]
	p.MaxNumActivePoolsPerPair = []uint32{20, 20, 3, 2, 1, 0}[r.Intn(6)]
	p.MinInitialDepositAmount = sm.NewInt([]int64{1000000, 100, 1000, 1000000}[r.Intn(4)])
	p.MinInitialPoolCoinSupply = []sm.Int{sm.NewInt(1_000_000_000_000), sm.NewInt(1_000_000), sm.NewInt(1_000_000_000_000), sm.NewInt(10)}[r.Intn(4)]
	switch r.Intn(4) {
	case 0:
		p.PairCreationFee, p.PoolCreationFee = sdk.NewCoins(), sdk.NewCoins()
	case 1:
		p.PairCreationFee = sdk.NewCoins(sdk.NewInt64Coin("stake", 12345), sdk.NewInt64Coin("aaa", 77))
		p.PoolCreationFee = sdk.NewCoins(sdk.NewInt64Coin("bbb", 999), sdk.NewInt64Coin("stake", 1))
	case 2:
		p.PairCreationFee = sdk.NewCoins(sdk.NewInt64Coin("stake", 7))
		p.PoolCreationFee = sdk.NewCoins(sdk.NewInt64Coin("stake", 3))
	}
	return p
}

var scenarioDenoms = []string{"aaa", "bbb", "ccc", "stake"}

func newProfile(r *rand.Rand, kind string) *Profile {
	p := &Profile{Name: kind, Users: 3 + r.Intn(5), Blocks: 25 + r.Intn(25), MaxMsgs: 3 + r.Intn(8),
		Anchors: map[uint64]sm.LegacyDec{}, W: baseWeights(), Params: randParams(r), NPairs: 1 + r.Intn(3), Denoms: scenarioDenoms}
	p.Dt = []time.Duration{5 * time.Second, 5 * time.Second, time.Second, 30 * time.Second}
	p.Lifespans = []time.Duration{0, 5 * time.Second, 10 * time.Second, 20 * time.Second, 30 * time.Second, time.Minute}
	switch r.Intn(6) {
	case 0:
		p.AmtLo, p.AmtHi = 2, 3.5
	case 1:
		p.AmtLo, p.AmtHi = 2, 6
	case 2:
		p.AmtLo, p.AmtHi = 5, 12
	case 3:
		p.AmtLo, p.AmtHi = 2, 16
	case 4:
		p.AmtLo, p.AmtHi = 3, 5
	case 5:
		p.AmtLo, p.AmtHi = 6, 8
	}
	switch r.Intn(5) {
	case 0:
		p.Scale = 0
	case 1:
		p.Scale = -2 + r.Float64()*4
	case 2:
		p.Scale = -6 + r.Float64()*12
	case 3:
		p.Scale = -9 + r.Float64()*18
	case 4:
		p.Scale = -1 + r.Float64()*2
	}
	p.TinyPools = r.Intn(3) == 0
	p.ParamChg = r.Intn(3) == 0
	switch kind {
	case "orders":
		p.W["limit"], p.W["market"], p.W["pool"], p.W["ranged"], p.W["deposit"], p.W["withdraw"] = 50, 10, 0.5, 0.5, 1, 1
	case "pools":
		p.W["deposit"], p.W["withdraw"], p.W["ranged"], p.W["pool"] = 25, 25, 6, 4
		p.W["limit"], p.W["mm"] = 20, 2
	case "mm":
		p.W["mm"], p.W["cancel"], p.W["cancelall"] = 40, 12, 5
	case "cancel":
		p.W["limit"], p.W["mm"], p.W["cancel"], p.W["cancelall"] = 30, 15, 25, 12
	case "denoms": // long denominations and ones which share prefixes
		l := func(c string, n int) string { return "ibc/" + strings.Repeat(c, n-4) }
		p.Denoms = []string{l("A", 128), l("B", 128), l("A", 127), "aaa", "aaab", "aaa/b", l("B", 125), l("A", 120)}
		p.W["pair"] = 12
	case "extreme": // everything a user may legally submit, up to the limits
		p.Extreme, p.ParamChg = true, true
		p.Scale = -13 + r.Float64()*33
		lo := 2 + r.Float64()*10
		p.AmtLo, p.AmtHi = lo, lo+r.Float64()*(40-lo)
		p.NPairs = 1 + r.Intn(2)
		p.Params.MinInitialDepositAmount = sm.NewInt([]int64{1, 100, 1000000}[r.Intn(3)])
		if r.Intn(4) == 0 {
			p.Params.MinInitialPoolCoinSupply = logUniform(r, 0, 70)
		}
		p.Params.MaxNumActivePoolsPerPair = 20
		p.Params.TickPrecision = extremePrec(r)
		p.W["pool"], p.W["ranged"], p.W["deposit"], p.W["withdraw"], p.W["send"] = 5, 12, 8, 14, 6
	case "lowpools": // several small pools quoting amounts worth a coin or two
		p.Scale = -3.2 + r.Float64()*2.2
		p.AmtLo, p.AmtHi = 3.5, 5.5
		p.TinyPools = true
		p.NPairs = 1
		p.Params.MinInitialDepositAmount = sm.NewInt(100)
		p.Params.MinInitialPoolCoinSupply = sm.NewInt(10)
		p.Params.MaxNumActivePoolsPerPair = 20
		p.W["pool"], p.W["ranged"], p.W["limit"], p.W["market"] = 6, 8, 40, 15
		p.W["deposit"], p.W["withdraw"] = 3, 3
	}
	return p
}

func extremePrec(r *rand.Rand) uint32 {
	if r.Intn(4) == 0 {
		return uint32(r.Intn(17))
	}
	return uint32(1 + r.Intn(5))
}

// fundDenoms are the trading denominations and those fees are paid in.
func (p *Profile) fundDenoms() []string {
	m := map[string]bool{}
	for _, d := range scenarioDenoms {
		m[d] = true
	}
	for _, d := range p.Denoms {
		m[d] = true
	}
	return sortedKeys(m)
}

func (p *Profile) String() string {
	return fmt.Sprintf("profile %s users=%d blocks=%d amt=1e%.1f..1e%.1f scale=1e%.1f pairs=%d batch=%d prec=%d ratio=%s wfee=%s mmcap=%d pools=%d mindep=%s minps=%s", p.Name, p.Users, p.Blocks,
		p.AmtLo, p.AmtHi, p.Scale, p.NPairs, p.Params.BatchSize, p.Params.TickPrecision, p.Params.MaxPriceLimitRatio, p.Params.WithdrawFeeRate,
		p.Params.MaxNumMarketMakingOrdersPerPair, p.Params.MaxNumActivePoolsPerPair, p.Params.MinInitialDepositAmount, p.Params.MinInitialPoolCoinSupply)
}

// Gen produces messages from the current observable state.
type Gen struct {
	P *Profile
	R *rand.Rand
	U []sdk.AccAddress
}

func (g *Gen) user() sdk.AccAddress { return g.U[g.R.Intn(len(g.U))] }

func pickKey[V any](r *rand.Rand, m map[uint64]V) (uint64, bool) {
	ks := sortedU(m)
	if len(ks) == 0 {
		return 0, false
	}
	return ks[r.Intn(len(ks))], true
}

func (g *Gen) anchor(s *Snap, pid uint64) sm.LegacyDec {
	if p := s.Pairs[pid]; p.LastPrice != nil && g.R.Intn(12) != 0 {
		return *p.LastPrice
	}
	a, ok := g.P.Anchors[pid]
	if !ok {
		a = decPow(g.R, g.P.Scale-0.5, g.P.Scale+0.5)
		g.P.Anchors[pid] = a
	}
	return a
}

// price near the anchor
func (g *Gen) price(s *Snap, pid uint64) sm.LegacyDec {
	r := g.R
	a := g.anchor(s, pid)
	prec := int(s.Params.TickPrecision)
	ratio := s.Params.MaxPriceLimitRatio
	one := sm.LegacyOneDec()
	var p sm.LegacyDec
	switch pickf(r, 20, 25, 30, 6, 6, 4, 3) {
	case 0:
		p = a
	case 1: // few ticks away
		p = a
		gap := refGapAt(a, prec)
		p = p.Add(gap.MulInt64(int64(r.Intn(9) - 4)))
	case 2: // inside the band
		f := sm.LegacyNewDecWithPrec(r.Int63n(2_000_000)-1_000_000, 6).Mul(ratio)
		p = a.Mul(one.Add(f))
	case 3: // band edges
		lo, hi := refBand(a, ratio, prec)
		p = []sm.LegacyDec{lo, hi}[r.Intn(2)]
	case 4: // around band edges
		lo, hi := refBand(a, ratio, prec)
		p = []sm.LegacyDec{lo, hi}[r.Intn(2)].Add(refGapAt(a, prec).MulInt64(int64(r.Intn(3) - 1)))
	case 5: // far off
		p = a.Mul(decPow(r, -2, 2))
	case 6: // raw 18-digit price
		if g.P.Extreme {
			p = decPow(r, -17, 53)
			break
		}
		p = a.Mul(one.Add(sm.LegacyNewDecFromBigIntWithPrec(big.NewInt(r.Int63n(1e17)), 18)))
	}
	if r.Intn(3) > 0 && p.IsPositive() {
		p = refDownTick(p, prec)
	}
	if !p.IsPositive() {
		p = a
	}
	return p
}

func (g *Gen) amount(s *Snap, pid uint64) sm.Int {
	r := g.R
	switch pickf(r, 20, 60, 12, 8) {
	case 0:
		return sm.NewInt(100 + r.Int63n(300))
	case 1:
		return logUniform(r, g.P.AmtLo, g.P.AmtHi)
	case 2: // relative to some pool of the pair
		for _, id := range s.PoolIDs() {
			pl := s.Pools[id]
			if pl.PairId == pid && !pl.Disabled {
				ry := s.B(pl.ReserveAddress, s.Pairs[pid].BaseCoinDenom)
				if ry.GT(sm.NewInt(1000)) {
					return ry.MulRaw(1 + r.Int63n(600)).QuoRaw(1000).AddRaw(1)
				}
			}
		}
		return logUniform(r, g.P.AmtLo, g.P.AmtHi)
	default: // same as an existing order: ties
		for _, k := range sortedID2(s.Ord) {
			if k[0] == pid && r.Intn(3) == 0 {
				return s.Ord[k].Amount
			}
		}
		return sm.NewInt(1000)
	}
}

func refOffer(buy bool, price sm.LegacyDec, amt sm.Int) sm.Int {
	if !buy {
		return amt
	}
	// ceil(price*amt) computed on integers
	n := new(big.Int).Mul(price.BigInt(), amt.BigInt())
	d := new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)
	q, m := new(big.Int).QuoRem(n, d, new(big.Int))
	if m.Sign() > 0 {
		q.Add(q, big.NewInt(1))
	}
	if q.BitLen() > 250 {
		return sm.NewIntFromBigInt(new(big.Int).Lsh(big.NewInt(1), 250))
	}
	return sm.NewIntFromBigInt(q)
}

func (g *Gen) order(s *Snap, kind string) sdk.Msg {
	r := g.R
	pid, ok := pickKey(r, s.Pairs)
	if !ok {
		return nil
	}
	pair := s.Pairs[pid]
	buy := r.Intn(2) == 0
	dir, odenom, ddenom := types.OrderDirectionSell, pair.BaseCoinDenom, pair.QuoteCoinDenom
	if buy {
		dir, odenom, ddenom = types.OrderDirectionBuy, pair.QuoteCoinDenom, pair.BaseCoinDenom
	}
	amt := g.amount(s, pid)
	price := g.price(s, pid)
	mp := price
	if kind == "market" && pair.LastPrice != nil {
		_, hi := refBand(*pair.LastPrice, s.Params.MaxPriceLimitRatio, int(s.Params.TickPrecision))
		mp = hi
	}
	// make the value of the order big enough, most of the time
	if new(big.Int).Mul(mp.BigInt(), amt.BigInt()).Cmp(sm.LegacyNewDec(100).BigInt()) < 0 && r.Intn(5) > 0 {
		need := sm.LegacyNewDec(100 + r.Int63n(2000)).Quo(mp).Ceil().TruncateInt()
		amt = need
	}
	off := refOffer(buy, mp, amt)
	switch r.Intn(10) {
	case 0:
		off = off.AddRaw(r.Int63n(1000))
	case 1:
		off = off.MulRaw(1 + r.Int63n(3)).AddRaw(1)
	case 2:
		if r.Intn(4) == 0 && off.IsPositive() {
			off = off.SubRaw(1)
		}
	}
	life := g.P.Lifespans[r.Intn(len(g.P.Lifespans))]
	if r.Intn(15) == 0 {
		life = s.Params.MaxOrderLifespan + time.Duration(r.Intn(3)-1)
	}
	if life < 0 {
		life = 0
	}
	u := g.user()
	oc := sdk.Coin{Denom: odenom, Amount: off}
	switch kind {
	case "limit":
		return types.NewMsgLimitOrder(u, pid, dir, oc, ddenom, price, amt, life)
	case "mm":
		return types.NewMsgMMOrder(u, pid, dir, oc, ddenom, price, amt, life)
	default:
		return types.NewMsgMarketOrder(u, pid, dir, oc, ddenom, amt, life)
	}
}

func (g *Gen) poolDeposit(s *Snap, pid uint64) (x, y sm.Int, p sm.LegacyDec) {
	r := g.R
	p = g.anchor(s, pid)
	if r.Intn(3) == 0 {
		p = p.Mul(sm.LegacyOneDec().Add(sm.LegacyNewDecWithPrec(r.Int63n(400)-200, 3)))
	}
	min := s.Params.MinInitialDepositAmount
	lo, hi := 6.0, 14.0
	if g.P.TinyPools {
		lo, hi = 2, 6
	}
	if g.P.Extreme {
		lo, hi = 0, 38
		p = p.Mul(decPow(r, -1, 1))
	}
	y = logUniform(r, lo, hi)
	if cap := sm.NewIntWithDecimal(1, 50); y.GT(cap) { // beyond anything legal anyway
		y = cap
	}
	if p.GT(decPow(r, 20, 21)) {
		p = sm.LegacyNewDecFromInt(sm.NewIntWithDecimal(1, 20))
	}
	x = p.MulInt(y).TruncateInt()
	if x.LT(min) && x.IsPositive() && r.Intn(8) > 0 {
		// scale up so that x is acceptable
		y = sm.LegacyNewDecFromInt(min.AddRaw(r.Int63n(100000))).Quo(p).Ceil().TruncateInt()
		x = p.MulInt(y).TruncateInt()
	}
	if y.LT(min) && r.Intn(8) > 0 {
		y = min.AddRaw(r.Int63n(100000))
		x = p.MulInt(y).TruncateInt()
	}
	return
}

func coins2(d1 string, a1 sm.Int, d2 string, a2 sm.Int) sdk.Coins {
	c := sdk.Coins{}
	if a1.IsPositive() {
		c = append(c, sdk.Coin{Denom: d1, Amount: a1})
	}
	if a2.IsPositive() {
		c = append(c, sdk.Coin{Denom: d2, Amount: a2})
	}
	sort.Slice(c, func(i, j int) bool { return c[i].Denom < c[j].Denom })
	return c
}

func (g *Gen) Next(s *Snap) sdk.Msg {
	r := g.R
	names := sortedKeys(g.P.W)
	t := 0.0
	for _, k := range names {
		t += g.P.W[k]
	}
	x := r.Float64() * t
	op := names[len(names)-1]
	for _, k := range names {
		if x < g.P.W[k] {
			op = k
			break
		}
		x -= g.P.W[k]
	}
	m := g.op(s, op)
	if m == nil {
		m = g.order(s, "limit")
	}
	if m == nil {
		m = g.op(s, "pair")
	}
	return m
}

func (g *Gen) op(s *Snap, op string) sdk.Msg {
	r := g.R
	switch op {
	case "limit", "market", "mm":
		return g.order(s, op)
	case "pair":
		ds := g.P.Denoms
		a, b := ds[r.Intn(len(ds))], ds[r.Intn(len(ds))]
		if r.Intn(12) == 0 && len(s.Pools) > 0 {
			id, _ := pickKey(r, s.Pools)
			a = s.Pools[id].PoolCoinDenom // pool coins can be traded too
		}
		return types.NewMsgCreatePair(g.user(), a, b)
	case "pool":
		pid, ok := pickKey(r, s.Pairs)
		if !ok {
			return nil
		}
		x, y, _ := g.poolDeposit(s, pid)
		if r.Intn(20) == 0 {
			ds := g.P.Denoms
			if d := ds[r.Intn(len(ds))]; d != s.Pairs[pid].QuoteCoinDenom {
				return types.NewMsgCreatePool(g.user(), pid, coins2(s.Pairs[pid].QuoteCoinDenom, x, d, y))
			}
		}
		return types.NewMsgCreatePool(g.user(), pid, coins2(s.Pairs[pid].QuoteCoinDenom, x, s.Pairs[pid].BaseCoinDenom, y))
	case "ranged":
		pid, ok := pickKey(r, s.Pairs)
		if !ok {
			return nil
		}
		prec := int(s.Params.TickPrecision)
		x, y, p := g.poolDeposit(s, pid)
		p = refDownTick(p, prec)
		w1 := []string{"0.01", "0.05", "0.2", "0.6", "0.002"}[r.Intn(5)]
		w2 := []string{"0.01", "0.05", "0.2", "0.6", "0.002", "3"}[r.Intn(6)]
		mn := refDownTick(p.Mul(sm.LegacyOneDec().Sub(dec(w1))), prec)
		mx := refUpTick(p.Mul(sm.LegacyOneDec().Add(dec(w2))), prec)
		ini := p
		switch r.Intn(6) {
		case 0:
			mn = p
			ini = mn
		case 1:
			mx = p
			ini = mx
		}
		if g.P.Extreme && r.Intn(3) > 0 {
			q := decPow(r, -14, 20)
			mn, mx = sm.LegacyMinDec(p, q), sm.LegacyMaxDec(p, q)
			switch r.Intn(4) {
			case 0: // any place between the two
				ini = refDownTick(mn.Add(mx.Sub(mn).Mul(decPow(r, -12, 0))), prec)
			case 1:
				ini = mn
			case 2:
				ini = mx
			}
			mn, mx, ini = refDownTick(mn, prec), refDownTick(mx, prec), refDownTick(ini, prec)
		}
		switch r.Intn(8) {
		case 0:
			x = sm.ZeroInt()
		case 1:
			y = sm.ZeroInt()
		case 2:
			x = x.MulRaw(3)
		case 3:
			y = y.MulRaw(3)
		}
		if r.Intn(8) == 0 { // off the grid, or in the wrong order
			f := sm.LegacyOneDec().Add(dec([]string{"0.00001", "0.0000000007", "-0.00001", "0.3", "-0.3"}[r.Intn(5)]))
			switch r.Intn(4) {
			case 0:
				mn = mn.Mul(f)
			case 1:
				mx = mx.Mul(f)
			case 2:
				ini = ini.Mul(f)
			case 3:
				mn, mx = mx, mn
			}
		}
		c := coins2(s.Pairs[pid].QuoteCoinDenom, x, s.Pairs[pid].BaseCoinDenom, y)
		if r.Intn(20) == 0 {
			ds := g.P.Denoms
			c = coins2(s.Pairs[pid].QuoteCoinDenom, x, ds[r.Intn(len(ds))], y)
		}
		return types.NewMsgCreateRangedPool(g.user(), pid, c, mn, mx, ini)
	case "deposit":
		id, ok := pickKey(r, s.Pools)
		if !ok {
			return nil
		}
		pl := s.Pools[id]
		if pl.Disabled && r.Intn(5) > 0 {
			return nil
		}
		pair := s.Pairs[pl.PairId]
		rx, ry := s.B(pl.ReserveAddress, pair.QuoteCoinDenom), s.B(pl.ReserveAddress, pair.BaseCoinDenom)
		var x, y sm.Int
		f := func(v sm.Int, num, den int64) sm.Int { return mulQuoInt(v, num, den) }
		switch pickf(r, 40, 20, 15, 10, 10) {
		case 0: // proportional
			n := 1 + r.Int63n(2000)
			x, y = f(rx, n, 1000), f(ry, n, 1000)
		case 1: // skewed
			x, y = f(rx, 1+r.Int63n(2000), 1000), f(ry, 1+r.Int63n(2000), 1000)
		case 2: // tiny
			hi := []int64{3, 50, 5000}[r.Intn(3)]
			x, y = sm.NewInt(r.Int63n(hi)), sm.NewInt(r.Int63n(hi))
		case 3: // one sided
			x, y = f(rx, 1+r.Int63n(500), 1000), sm.ZeroInt()
			if r.Intn(2) == 0 {
				x, y = sm.ZeroInt(), f(ry, 1+r.Int63n(500), 1000)
			}
		case 4: // awkward
			x, y = f(rx, 1+r.Int63n(200000), 100000).AddRaw(r.Int63n(3)), f(ry, 1+r.Int63n(200000), 100000).AddRaw(r.Int63n(3))
		}
		if pl.Type == types.PoolTypeBasic {
			if !x.IsPositive() {
				x = sm.OneInt()
			}
			if !y.IsPositive() {
				y = sm.OneInt()
			}
		}
		c := coins2(pair.QuoteCoinDenom, x, pair.BaseCoinDenom, y)
		if len(c) == 0 {
			return nil
		}
		return types.NewMsgDeposit(g.user(), id, c)
	case "withdraw":
		id, ok := pickKey(r, s.Pools)
		if !ok {
			return nil
		}
		pl := s.Pools[id]
		// someone who holds pool coin
		var holders []sdk.AccAddress
		for _, u := range g.U {
			if s.B(u.String(), pl.PoolCoinDenom).IsPositive() {
				holders = append(holders, u)
			}
		}
		u := g.user()
		if len(holders) > 0 && r.Intn(12) > 0 {
			u = holders[r.Intn(len(holders))]
		}
		b := s.B(u.String(), pl.PoolCoinDenom)
		amt := b
		switch pickf(r, 25, 30, 20, 15, 3) {
		case 0:
		case 1:
			amt = b.MulRaw(1 + r.Int63n(999)).QuoRaw(1000)
		case 2:
			amt = sm.NewInt(1 + r.Int63n([]int64{2, 30, 1000}[r.Intn(3)]))
		case 3:
			amt = b.SubRaw(r.Int63n(3))
		case 4:
			amt = b.AddRaw(1)
		}
		if !amt.IsPositive() {
			amt = sm.OneInt()
		}
		return types.NewMsgWithdraw(u, id, sdk.Coin{Denom: pl.PoolCoinDenom, Amount: amt})
	case "cancel":
		ks := sortedID2(s.Ord)
		if len(ks) == 0 {
			return nil
		}
		k := ks[r.Intn(len(ks))]
		o := s.Ord[k]
		u := o.GetOrdererAcc()
		if r.Intn(8) == 0 {
			u = g.user()
		}
		return types.NewMsgCancelOrder(u, k[0], k[1])
	case "cancelall":
		var ids []uint64
		if r.Intn(2) == 0 {
			if id, ok := pickKey(r, s.Pairs); ok {
				ids = append(ids, id)
			}
			if id, ok := pickKey(r, s.Pairs); ok && r.Intn(2) == 0 {
				ids = append(ids, id)
			}
		}
		return types.NewMsgCancelAllOrders(g.user(), ids)
	case "send":
		// donations to pools and escrows, transfers of pool coins
		u := g.user()
		switch r.Intn(3) {
		case 0:
			if id, ok := pickKey(r, s.Pools); ok {
				pl := s.Pools[id]
				d := s.Pairs[pl.PairId].QuoteCoinDenom
				if r.Intn(2) == 0 {
					d = s.Pairs[pl.PairId].BaseCoinDenom
				}
				hi := 7.0
				if g.P.Extreme {
					hi = []float64{12, 40, 72}[r.Intn(3)]
				}
				return banktypes.NewMsgSend(u, pl.GetReserveAddressAcc(), sdk.NewCoins(sdk.NewCoin(d, logUniform(r, 0, hi))))
			}
		case 1:
			if id, ok := pickKey(r, s.Pools); ok {
				b := s.B(u.String(), s.Pools[id].PoolCoinDenom)
				if b.IsPositive() {
					return banktypes.NewMsgSend(u, g.user(), sdk.NewCoins(sdk.NewCoin(s.Pools[id].PoolCoinDenom, b.QuoRaw(2).AddRaw(1))))
				}
			}
		}
		return banktypes.NewMsgSend(u, g.user(), sdk.NewCoins(sdk.NewCoin("aaa", logUniform(r, 0, 6))))
	case "bad":
		return g.bad(s)
	}
	return nil
}

// bad produces messages which ought to be rejected or are at least unusual.
func (g *Gen) bad(s *Snap) sdk.Msg {
	r := g.R
	u := g.user()
	pid, ok := pickKey(r, s.Pairs)
	if !ok {
		return types.NewMsgCreatePair(u, "aaa", "aaa")
	}
	pair := s.Pairs[pid]
	p := g.price(s, pid)
	amt := g.amount(s, pid)
	switch r.Intn(13) {
	case 0: // wrong denoms
		dir, buy := types.OrderDirectionSell, false
		if r.Intn(2) == 0 {
			dir, buy = types.OrderDirectionBuy, true
		}
		bd, qd := pair.BaseCoinDenom, pair.QuoteCoinDenom
		if buy {
			bd, qd = qd, bd
		}
		alien := g.P.Denoms[r.Intn(len(g.P.Denoms))]
		if r.Intn(4) == 0 {
			alien = "zzz"
		}
		switch r.Intn(3) {
		case 0:
			bd, qd = qd, bd
		case 1:
			bd = alien
		case 2:
			qd = alien
		}
		off := amt
		if buy {
			off = refOffer(true, p, amt)
		}
		oc := sdk.Coin{Denom: bd, Amount: off}
		switch r.Intn(4) {
		case 0:
			return types.NewMsgMarketOrder(u, pid, dir, oc, qd, amt, 0)
		case 1:
			return types.NewMsgMMOrder(u, pid, dir, oc, qd, p, amt, 0)
		}
		return types.NewMsgLimitOrder(u, pid, dir, oc, qd, p, amt, g.P.Lifespans[r.Intn(len(g.P.Lifespans))])
	case 1: // unknown pair
		return types.NewMsgLimitOrder(u, 999, types.OrderDirectionSell, sdk.NewCoin(pair.BaseCoinDenom, amt), pair.QuoteCoinDenom, p, amt, 0)
	case 2: // far more than owned
		a := s.B(u.String(), pair.BaseCoinDenom).AddRaw(1)
		return types.NewMsgLimitOrder(u, pid, types.OrderDirectionSell, sdk.NewCoin(pair.BaseCoinDenom, a), pair.QuoteCoinDenom, p, a, 0)
	case 3: // tiny
		return types.NewMsgLimitOrder(u, pid, types.OrderDirectionSell, sdk.NewCoin(pair.BaseCoinDenom, sm.NewInt(99)), pair.QuoteCoinDenom, p, sm.NewInt(99), 0)
	case 4: // own order of the same batch
		for _, k := range sortedID2(s.Ord) {
			if s.Ord[k].Status == types.OrderStatusNotExecuted {
				return types.NewMsgCancelOrder(s.Ord[k].GetOrdererAcc(), k[0], k[1])
			}
		}
	case 5:
		return types.NewMsgCancelOrder(u, pid, 1+uint64(r.Intn(1000)))
	case 6:
		return types.NewMsgCreatePair(u, pair.BaseCoinDenom, pair.QuoteCoinDenom)
	case 7: // parameter change by a user
		pp := s.Params
		pp.WithdrawFeeRate = dec("0.9")
		if r.Intn(2) == 0 {
			pp = randParams(r)
		}
		who := u.String()
		switch r.Intn(6) {
		case 0:
			mods := []string{types.ModuleName, "mint", "distribution", "bonded_tokens_pool", "fee_collector", "transfer", "upgrade", "params"}
			who = authtypes.NewModuleAddress(mods[r.Intn(len(mods))]).String()
		case 1:
			who = pair.EscrowAddress
		case 2:
			who = []string{s.Params.FeeCollectorAddress, s.Params.DustCollectorAddress}[r.Intn(2)]
		case 3: // names which merely resemble the authority's
			g := govAuthority()
			who = []string{sdk.AccAddress(append(append([]byte(nil), g...), 0)).String(), sdk.AccAddress(g[:19]).String(), strings.ToUpper(g.String()), ""}[r.Intn(4)]
		}
		return &types.MsgUpdateParams{Authority: who, Params: pp}
	case 8: // wrong pool coin
		if id, ok := pickKey(r, s.Pools); ok {
			return types.NewMsgWithdraw(u, id, sdk.NewCoin("aaa", sm.NewInt(1000)))
		}
	case 9: // deposit foreign coin
		if id, ok := pickKey(r, s.Pools); ok {
			return types.NewMsgDeposit(u, id, sdk.NewCoins(sdk.NewInt64Coin("zzz", 1000), sdk.NewInt64Coin("aaa", 1000)))
		}
	case 10: // offers one coin less than needed
		o := refOffer(true, refDownTick(p, int(s.Params.TickPrecision)), amt)
		if o.GT(sm.NewInt(200)) {
			return types.NewMsgMMOrder(u, pid, types.OrderDirectionBuy, sdk.NewCoin(pair.QuoteCoinDenom, o.SubRaw(1)), pair.BaseCoinDenom, p, amt, 0)
		}
	case 11:
		return types.NewMsgLimitOrder(u, pid, types.OrderDirectionSell, sdk.NewCoin(pair.BaseCoinDenom, amt), pair.QuoteCoinDenom, p, amt, s.Params.MaxOrderLifespan+time.Second)
	case 12:
		return g.huge(s, u, pid, p, amt)
	}
	return types.NewMsgCancelAllOrders(u, []uint64{pid, 12345})
}

// huge produces messages with amounts beyond the largest one allowed.
func (g *Gen) huge(s *Snap, u sdk.AccAddress, pid uint64, p sm.LegacyDec, amt sm.Int) sdk.Msg {
	r := g.R
	pair := s.Pairs[pid]
	over := amm.MaxCoinAmount.AddRaw(1)
	if r.Intn(2) == 0 {
		over = amm.MaxCoinAmount.MulRaw(2 + r.Int63n(50))
	}
	if g.P.Extreme && r.Intn(3) == 0 {
		over = amm.MaxCoinAmount.Mul(sm.NewIntWithDecimal(1, r.Intn(33)))
	}
	dir, odenom, ddenom := types.OrderDirectionSell, pair.BaseCoinDenom, pair.QuoteCoinDenom
	off := amt
	switch r.Intn(6) {
	case 0: // a huge amount offered and sold
		amt, off = over, over
	case 1: // a huge offer for little
		off = over
	case 2: // a huge amount for which little is offered
		dir, odenom, ddenom = types.OrderDirectionBuy, pair.QuoteCoinDenom, pair.BaseCoinDenom
		if pair.LastPrice == nil {
			p = decPow(r, -14, -6)
		}
		amt = over
		off = refOffer(true, p, amt).AddRaw(100)
	case 3:
		dir, odenom, ddenom = types.OrderDirectionBuy, pair.QuoteCoinDenom, pair.BaseCoinDenom
		off = over
	default: // a deposit which makes the pool too large
		id, ok := pickKey(r, s.Pools)
		if !ok {
			return types.NewMsgCreatePool(u, pid, coins2(pair.QuoteCoinDenom, over, pair.BaseCoinDenom, amt))
		}
		pl := s.Pools[id]
		pair := s.Pairs[pl.PairId]
		rx, ry := s.B(pl.ReserveAddress, pair.QuoteCoinDenom), s.B(pl.ReserveAddress, pair.BaseCoinDenom)
		if !rx.IsPositive() || !ry.IsPositive() {
			return nil
		}
		times := over.Quo(sm.MaxInt(rx, ry)).AddRaw(1)
		if r.Intn(2) == 0 {
			times = over.Quo(sm.MinInt(rx, ry)).AddRaw(1)
		}
		x, err1 := rx.SafeMul(times)
		y, err2 := ry.SafeMul(times)
		if err1 != nil || err2 != nil {
			return nil
		}
		return types.NewMsgDeposit(u, id, coins2(pair.QuoteCoinDenom, x, pair.BaseCoinDenom, y))
	}
	oc := sdk.Coin{Denom: odenom, Amount: off}
	switch r.Intn(3) {
	case 0:
		return types.NewMsgMarketOrder(u, pid, dir, oc, ddenom, amt, 0)
	case 1:
		return types.NewMsgMMOrder(u, pid, dir, oc, ddenom, p, amt, 0)
	}
	return types.NewMsgLimitOrder(u, pid, dir, oc, ddenom, p, amt, time.Hour)
}

// RunScenario drives a whole random history with monitors attached.
func RunScenario(seed int64, kind string, rep *Reporter, mons ...Monitor) *World {
	r := rand.New(rand.NewSource(seed))
	p := newProfile(r, kind)
	funds := sdk.NewCoins()
	amt := sm.NewIntWithDecimal(1, 33)
	if p.Extreme {
		amt = sm.NewIntWithDecimal(1, []int{42, 42, 73}[r.Intn(3)])
	} else if r.Intn(5) == 0 {
		amt = sm.NewIntWithDecimal(1, 9) // poor users
	}
	for _, d := range p.fundDenoms() {
		funds = funds.Add(sdk.NewCoin(d, amt))
	}
	w := NewWorld(subSeed(seed, "w"), GenesisOpts{NumUsers: p.Users, Coins: funds, Twins: r.Intn(2) == 0}, rep, mons...)
	w.SetParams(p.Params)
	w.Trace = append(w.Trace, p.String())
	g := &Gen{P: p, R: r, U: w.Users}
	for b := 0; b < p.Blocks; b++ {
		if !w.BeginBlock(p.Dt[r.Intn(len(p.Dt))]) {
			break
		}
		if b == 0 {
			for i := 0; i < p.NPairs; i++ {
				a, q := p.Denoms[i%4], p.Denoms[(i+1)%4]
				if i > 0 && r.Intn(3) == 0 { // reversed pair of the first one
					a, q = p.Denoms[1], p.Denoms[0]
				}
				w.Deliver(types.NewMsgCreatePair(w.Users[0], a, q))
			}
		}
		if b == 1 || b == 2 {
			for _, op := range []string{"pool", "ranged", "ranged"} {
				if m := g.op(w.Prev, op); m != nil && r.Intn(3) > 0 && p.W[op] > 1 {
					w.Deliver(m)
				}
			}
		}
		if p.Extreme && b < 4 && r.Intn(2) == 0 { // reserves nobody deposited
			for i := r.Intn(3); i >= 0; i-- {
				if id, ok := pickKey(r, w.Prev.Pools); ok {
					pl := w.Prev.Pools[id]
					d := w.Prev.Pairs[pl.PairId].QuoteCoinDenom
					if r.Intn(2) == 0 {
						d = w.Prev.Pairs[pl.PairId].BaseCoinDenom
					}
					w.Deliver(banktypes.NewMsgSend(g.user(), pl.GetReserveAddressAcc(), sdk.NewCoins(sdk.NewCoin(d, logUniform(r, 20, 72)))))
				}
			}
		}
		nm := r.Intn(p.MaxMsgs + 1)
		for i := 0; i < nm; i++ {
			if m := g.Next(w.Prev); m != nil {
				w.Deliver(m)
			}
		}
		if p.ParamChg && r.Intn(7) == 0 {
			pp := w.Prev.Params
			q := randParams(r)
			q.TickPrecision = pp.TickPrecision
			q.MinInitialDepositAmount, q.MinInitialPoolCoinSupply = pp.MinInitialDepositAmount, pp.MinInitialPoolCoinSupply
			q.FeeCollectorAddress, q.DustCollectorAddress = pp.FeeCollectorAddress, pp.DustCollectorAddress
			if r.Intn(2) == 0 {
				q.FeeCollectorAddress = sdk.AccAddress(fmt.Sprintf("fee collector %06d", r.Intn(3))).String()
			}
			if r.Intn(2) == 0 {
				q.DustCollectorAddress = sdk.AccAddress(fmt.Sprintf("dust collector %05d", r.Intn(3))).String()
			}
			pp = q
			if p.Extreme {
				pp.TickPrecision = extremePrec(r)
				pp.MinInitialDepositAmount = sm.NewInt([]int64{1, 100, 1000000}[r.Intn(3)])
			}
			w.Deliver(&types.MsgUpdateParams{Authority: govAuthority().String(), Params: pp})
		}
		if !w.EndBlock() {
			break
		}
	}
	return w
}

func (w *World) digest() string {
	var b strings.Builder
	for _, t := range w.Trace {
		b.WriteString(t)
		b.WriteByte('\n')
	}
	return b.String()
}

func scenarioFamily(kind string, quick, thorough int, mk func() []Monitor) *Family {
	return &Family{Name: "scenario-" + kind, N: n(quick, thorough), Run: func(idx int, seed int64, tier string, rep *Reporter) {
		w := RunScenario(seed, kind, rep, mk()...)
		if w.Dead != "" {
			rep.Count("chain_halts", 1)
			rep.Halts = append(rep.Halts, clip(w.Dead, 400))
		}
		rep.Count("blocks", w.Height)
		rep.Case(w.digest(), w.N > 30, func() string { return strings.Join(w.Trace[:min(len(w.Trace), 25)], "\n") })
	}}
}
