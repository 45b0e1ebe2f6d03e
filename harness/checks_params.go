package main

// C17: boundary values of every parameter, one at a time and combined.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"time"

	sm "cosmossdk.io/math"
	dbm "github.com/cosmos/cosmos-db"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/types"
)

type paramEdit struct {
	name string
	f    func(r *rand.Rand, p *types.Params)
}

func pickDec(r *rand.Rand, ss ...string) sm.LegacyDec { return dec(ss[r.Intn(len(ss))]) }

func rateValue(r *rand.Rand) sm.LegacyDec {
	if r.Intn(8) == 0 {
		return sm.LegacyDec{}
	}
	return pickDec(r, "0", "0.000000000000000001", "-0.000000000000000001", "0.5", "0.999999999999999999", "1", "1.000000000000000001", "2", "-1", "1000000", "0.003", "0.123456789012345678")
}

func intValue(r *rand.Rand) sm.Int {
	switch r.Intn(8) {
	case 0:
		return sm.Int{}
	case 1:
		return sm.NewInt(-1)
	case 2:
		return sm.NewInt(0)
	case 3:
		return sm.NewInt(1)
	case 4:
		return sm.NewIntWithDecimal(1, 75)
	case 5:
		return sm.NewIntWithDecimal(-1, 40)
	}
	return logUniform(r, 0, 40)
}

func u32Value(r *rand.Rand) uint32 {
	return []uint32{0, 1, 2, 15, 16, 17, 18, 19, 255, 256, 1 << 16, math.MaxUint32, uint32(r.Intn(20)), r.Uint32()}[r.Intn(14)]
}

func gasValue(r *rand.Rand) uint64 {
	return []uint64{0, 1, math.MaxUint64, math.MaxInt64, 1 << 40, uint64(r.Intn(1e6)), uint64(r.Intn(1e6)), uint64(r.Intn(1e6))}[r.Intn(8)]
}

func addrValue(r *rand.Rand) string {
	a := userAddr(r.Intn(50)).String()
	switch r.Intn(9) {
	case 0:
		return ""
	case 1:
		return a[:len(a)-1]
	case 2:
		return "cosmos1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqnrql8a"
	case 3:
		return a[:20] + "b" + a[21:]
	case 4:
		return types.DeriveAddress(types.AddressType32Bytes, types.ModuleName, fmt.Sprint(r.Int())).String()
	case 5:
		return "not an address"
	}
	return a
}

func feeValue(r *rand.Rand) sdk.Coins {
	c := func(d string, a sm.Int) sdk.Coin { return sdk.Coin{Denom: d, Amount: a} }
	switch r.Intn(12) {
	case 0:
		return sdk.Coins{}
	case 1:
		return sdk.Coins{c("bbb", sm.NewInt(1)), c("aaa", sm.NewInt(1))} // unsorted
	case 2:
		return sdk.Coins{c("aaa", sm.NewInt(1)), c("aaa", sm.NewInt(2))} // twice
	case 3:
		return sdk.Coins{c("aaa", sm.NewInt(0))}
	case 4:
		return sdk.Coins{c("aaa", sm.NewInt(-5))}
	case 5:
		return sdk.Coins{c("1x", sm.NewInt(5))}
	case 6:
		return sdk.Coins{c("aaa", sm.NewInt(3)), c("bbb", sm.NewInt(0))}
	case 7:
		return sdk.Coins{c("aaa", sm.NewInt(3)), c("b b", sm.NewInt(4))}
	case 8:
		return sdk.Coins{c("aaa", logUniform(r, 0, 70)), c("ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", sm.NewInt(9)), c("pool1", sm.NewInt(2))}
	}
	return sdk.NewCoins(c("stake", logUniform(r, 0, 9)), c("aaa", logUniform(r, 0, 9)))
}

var paramEdits = []paramEdit{
	{"batch size", func(r *rand.Rand, p *types.Params) { p.BatchSize = u32Value(r) }},
	{"tick precision", func(r *rand.Rand, p *types.Params) { p.TickPrecision = u32Value(r) }},
	{"fee collector", func(r *rand.Rand, p *types.Params) { p.FeeCollectorAddress = addrValue(r) }},
	{"dust collector", func(r *rand.Rand, p *types.Params) { p.DustCollectorAddress = addrValue(r) }},
	{"initial pool coin supply", func(r *rand.Rand, p *types.Params) { p.MinInitialPoolCoinSupply = intValue(r) }},
	{"pair creation fee", func(r *rand.Rand, p *types.Params) { p.PairCreationFee = feeValue(r) }},
	{"pool creation fee", func(r *rand.Rand, p *types.Params) { p.PoolCreationFee = feeValue(r) }},
	{"initial deposit", func(r *rand.Rand, p *types.Params) { p.MinInitialDepositAmount = intValue(r) }},
	{"price limit ratio", func(r *rand.Rand, p *types.Params) { p.MaxPriceLimitRatio = rateValue(r) }},
	{"mm ticks", func(r *rand.Rand, p *types.Params) { p.MaxNumMarketMakingOrderTicks = u32Value(r) }},
	{"mm orders", func(r *rand.Rand, p *types.Params) { p.MaxNumMarketMakingOrdersPerPair = u32Value(r) }},
	{"lifespan", func(r *rand.Rand, p *types.Params) {
		p.MaxOrderLifespan = []time.Duration{0, -1, 1, -time.Hour, math.MaxInt64, math.MinInt64, time.Hour, 30 * time.Second}[r.Intn(8)]
	}},
	{"swap fee rate", func(r *rand.Rand, p *types.Params) { p.SwapFeeRate = rateValue(r) }},
	{"withdraw fee rate", func(r *rand.Rand, p *types.Params) { p.WithdrawFeeRate = rateValue(r) }},
	{"deposit gas", func(r *rand.Rand, p *types.Params) { p.DepositExtraGas = gasValue(r) }},
	{"withdraw gas", func(r *rand.Rand, p *types.Params) { p.WithdrawExtraGas = gasValue(r) }},
	{"order gas", func(r *rand.Rand, p *types.Params) { p.OrderExtraGas = gasValue(r) }},
	{"active pools", func(r *rand.Rand, p *types.Params) { p.MaxNumActivePoolsPerPair = u32Value(r) }},
}

// safely calls f and turns a panic into an error.
func safely(f func() error) (err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("panic: %v", x)
		}
	}()
	return f()
}

// showParams prints parameter sets which may hold nil numbers.
func showParams(p types.Params) string {
	b, err := json.Marshal(p)
	if err != nil {
		return fmt.Sprintf("%+v", p)
	}
	return string(b)
}

// sameParams compares what would be stored.
func sameParams(a, b types.Params) bool {
	x, e1 := a.Marshal()
	y, e2 := b.Marshal()
	return e1 == nil && e2 == nil && bytes.Equal(x, y)
}

// paramSetterErr asks the validator registered for each stored parameter.
func paramSetterErr(p types.Params) (err error) {
	for _, pr := range (&p).ParamSetPairs() {
		pr := pr
		var v any
		switch x := pr.Value.(type) {
		case *uint32:
			v = *x
		case *uint64:
			v = *x
		case *string:
			v = *x
		case *sm.Int:
			v = *x
		case *sm.LegacyDec:
			v = *x
		case *sdk.Coins:
			v = *x
		case *time.Duration:
			v = *x
		default:
			return nil
		}
		if e := safely(func() error { return pr.ValidatorFn(v) }); e != nil {
			err = fmt.Errorf("%s: %w", pr.Key, e)
		}
	}
	return
}

// paramViews compares every way of reading the parameters with p.
func paramViews(w *World, p types.Params) (out []string) {
	k, ctx := w.App.DexKeeper, w.Ctx
	cmp := func(name string, got, want any) {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			out = append(out, fmt.Sprintf("%s reads %v where %v is in force", name, got, want))
		}
	}
	if e := safely(func() error {
		cmp("batch size", k.GetBatchSize(ctx), p.BatchSize)
		cmp("tick precision", k.GetTickPrecision(ctx), p.TickPrecision)
		cmp("fee collector", k.GetFeeCollector(ctx).String(), p.FeeCollectorAddress)
		cmp("dust collector", k.GetDustCollector(ctx).String(), p.DustCollectorAddress)
		cmp("minimum pool coin supply", k.GetMinInitialPoolCoinSupply(ctx), p.MinInitialPoolCoinSupply)
		cmp("pair creation fee", k.GetPairCreationFee(ctx), p.PairCreationFee)
		cmp("pool creation fee", k.GetPoolCreationFee(ctx), p.PoolCreationFee)
		cmp("minimum deposit", k.GetMinInitialDepositAmount(ctx), p.MinInitialDepositAmount)
		cmp("price limit ratio", k.GetMaxPriceLimitRatio(ctx), p.MaxPriceLimitRatio)
		cmp("market-making ticks", k.GetMaxNumMarketMakingOrderTicks(ctx), p.MaxNumMarketMakingOrderTicks)
		cmp("market-making orders", k.GetMaxNumMarketMakingOrdersPerPair(ctx), p.MaxNumMarketMakingOrdersPerPair)
		cmp("lifespan", k.GetMaxOrderLifespan(ctx), p.MaxOrderLifespan)
		cmp("withdraw fee rate", k.GetWithdrawFeeRate(ctx), p.WithdrawFeeRate)
		cmp("deposit gas", k.GetDepositExtraGas(ctx), p.DepositExtraGas)
		cmp("withdraw gas", k.GetWithdrawExtraGas(ctx), p.WithdrawExtraGas)
		cmp("order gas", k.GetOrderExtraGas(ctx), p.OrderExtraGas)
		cmp("active pools", k.GetMaxNumActivePoolsPerPair(ctx), p.MaxNumActivePoolsPerPair)
		resp, err := k.Params(ctx, &types.QueryParamsRequest{})
		if err != nil {
			out = append(out, "the query fails: "+err.Error())
		} else {
			cmp("the query", resp.Params.String(), p.String())
		}
		return nil
	}); e != nil {
		out = append(out, "reading fails: "+e.Error())
	}
	return
}

func c17Params(idx int, seed int64, tier string, rep *Reporter) {
	r := rand.New(rand.NewSource(seed))
	mon := NewDexMon(rep)
	w := NewWorld(subSeed(seed, "w"), GenesisOpts{NumUsers: 3, Coins: sdk.NewCoins(sdk.NewInt64Coin("aaa", 1e12), sdk.NewInt64Coin("stake", 1e12))}, rep, mon)
	if idx == 0 {
		d := types.DefaultParams()
		if why := refParamsInvalid(d); why != "" {
			rep.Violate("C17", "default-invalid", "the default parameters are not valid: %s", why)
		}
		if e := safely(d.Validate); e != nil {
			rep.Violate("C17", "default-refused", "the default parameters are refused: %v", e)
		}
	}
	good := w.Prev.Params
	if !w.BeginBlock(5 * time.Second) {
		return
	}
	nEd, accepted, refused := 40, 0, 0
	for i := 0; i < nEd; i++ {
		p := good
		var names []string
		for j := 1 + pickf(r, 6, 2, 1); j > 0; j-- {
			e := paramEdits[(idx*nEd+i+j*7)%len(paramEdits)]
			if j > 1 {
				e = paramEdits[r.Intn(len(paramEdits))]
			}
			e.f(r, &p)
			names = append(names, e.name)
		}
		if r.Intn(6) == 0 { // all at once, distinct gas values
			for _, e := range paramEdits {
				q := p
				e.f(r, &q)
				if refParamsInvalid(q) == "" {
					p = q
				}
			}
			names = append(names, "all")
		}
		why := refParamsInvalid(p)
		rep.Count("parameter_sets", 1)
		desc := fmt.Sprintf("edits of %v: %s", names, clip(showParams(p), 900))
		judge := func(what string, err error) {
			switch {
			case why != "" && err == nil:
				rep.Violate("C17", "invalid-passes:"+what+":"+why, "%s accepts parameters although %s (%s)", what, why, desc)
			case why == "" && err != nil:
				rep.Violate("C17", "valid-refused:"+what, "%s refuses valid parameters: %v (%s)", what, err, desc)
			}
		}
		judge("validation", safely(p.Validate))
		judge("the parameter store's validators", paramSetterErr(p))
		gs := types.DefaultGenesis()
		gs.Params = p
		judge("genesis validation", safely(gs.Validate))
		who := govAuthority().String()
		stranger := r.Intn(8) == 0
		if stranger {
			who = []string{w.Users[0].String(), "", types.GlobalEscrowAddress.String(), userAddr(77).String()}[r.Intn(4)]
		}
		before := w.Prev.Params
		st := w.Deliver(&types.MsgUpdateParams{Authority: who, Params: p})
		switch {
		case st.Panic != "":
			rep.Violate("C17", "update-panics", "a parameter update panics: %s (%s)", firstLine(st.Panic), desc)
		case stranger && st.OK():
			rep.Violate("C17", "stranger", "a parameter update by %q is accepted", who)
		case !stranger:
			judge("the parameter update", st.Err)
		}
		if st.OK() {
			accepted++
			if !sameParams(w.Prev.Params, p) {
				rep.Violate("C17", "not-stored", "after an accepted update the parameters are %s instead of %s", showParams(w.Prev.Params), showParams(p))
			}
			good = w.Prev.Params
		} else {
			refused++
			if !sameParams(before, w.Prev.Params) {
				rep.Violate("C17", "rejected-changes", "a rejected update changed the parameters from %s to %s", showParams(before), showParams(w.Prev.Params))
			}
		}
		for _, d := range paramViews(w, w.Prev.Params) {
			rep.Violate("C17", "view:"+clip(d, 20), "after an update (%v, accepted %v) %s", names, st.OK(), d)
		}
		// a chain starting from such a document
		if i%13 == 5 && !stranger {
			a := newApp(dbm.NewMemDB())
			doc := buildGenesis(a, GenesisOpts{NumUsers: 2, Coins: sdk.NewCoins(sdk.NewInt64Coin("stake", 1e12))})
			var back types.GenesisState
			if b, e := a.AppCodec().MarshalJSON(gs); e == nil && a.AppCodec().UnmarshalJSON(b, &back) == nil {
				doc[types.ModuleName] = b
				why = refParamsInvalid(back.Params)
				judge("a chain's genesis", safely(func() error { return initChain(a, doc) }))
				rep.Count("genesis_starts", 1)
			}
		}
	}
	rep.Count("updates_accepted", int64(accepted))
	rep.Count("updates_refused", int64(refused))
	if !w.EndBlock() {
		rep.Count("chain_halts", 1)
	}
	rep.Case(w.digest(), accepted > 0 && refused > 0, func() string { return joinLines(w.Trace, 12) })
}

func init() { // after checks_keeper.go, which registers the property
	c := checks["C17"]
	c.Families = append(c.Families, &Family{Name: "params", N: n(36, 1200), Run: c17Params})
	for k, v := range map[string]int64{"parameter_sets": 500, "updates_accepted": 100, "updates_refused": 100, "genesis_starts": 20} {
		c.MinObserved[k] = v
	}
}
