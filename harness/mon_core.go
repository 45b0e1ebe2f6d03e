package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	sm "cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"defund/x/dex/amm"
	"defund/x/dex/types"
)

// DexMon watches one history and judges it against the specifications of all
// state-level properties. The reporter keeps only those of the property that is
// being decided.
type DexMon struct {
	R *Reporter

	// donations received by escrow accounts: addr -> denom -> amount
	Don      Delta
	MaxRatio sm.LegacyDec
	finest   int  // the finest tick precision that was in force
	regrid   bool // the tick precision changed in this history
	// lifetime bookkeeping per order: what the monitor saw at placement
	Placed   map[ID2]types.Order
	Finished map[ID2]string // terminal status seen
	LifePaid map[ID2]sm.Int
	LifeRecv map[ID2]sm.Int
	Refunded map[ID2]int
	SeenDep  map[ID2]string
	SeenWd   map[ID2]string
	MaxOrd   map[uint64]uint64
	Esc      map[string]uint64 // escrow addr -> pair
	Res      map[string]uint64 // reserve addr -> pool
	UserSet  map[string]bool
	modAddr  string
	globEsc  string
	nontriv  int
}

func NewDexMon(r *Reporter) *DexMon {
	return &DexMon{R: r, Don: Delta{}, MaxRatio: sm.LegacyZeroDec(), Placed: map[ID2]types.Order{}, Finished: map[ID2]string{},
		LifePaid: map[ID2]sm.Int{}, LifeRecv: map[ID2]sm.Int{}, Refunded: map[ID2]int{}, SeenDep: map[ID2]string{}, SeenWd: map[ID2]string{},
		MaxOrd: map[uint64]uint64{}, Esc: map[string]uint64{}, Res: map[string]uint64{},
		modAddr: authtypes.NewModuleAddress(types.ModuleName).String(), globEsc: types.GlobalEscrowAddress.String()}
}

// alsoBroken names further properties whose statement the same observation breaks.
var alsoBroken = map[string][]string{
	"C03 buy-amount":               {"C06", "C01"},
	"C03 sell-amount":              {"C06", "C01"},
	"C03 overfilled":               {"C06"},
	"C03 overspent":                {"C02"},
	"C04 closed-pool-traded":       {"C22"},
	"C05 deposit-into-closed":      {"C22"},
	"C05 withdraw-from-closed":     {"C22"},
	"C05 pool-flag":                {"C22", "C06"},
	"C05 pool-flag-by-tx":          {"C22"},
	"C05 pool-books":               {"C01", "C13"},
	"C05 deposit-refused":          {"C06"},
	"C05 withdraw-refused":         {"C06"},
	"C06 expired-order-matched":    {"C12"},
	"C06 never-attempted":          {"C12"},
	"C06 failed-request-content":   {"C24"},
	"C06 cancel-ignored":           {"C16"},
	"C06 order-touched":            {"C13"},
	"C18 range-off-grid":           {"C22"},
	"C22 order-size":               {"C14"},
	"C22 pool-too-large":           {"C14"},
	"C18 initial-outside-range":    {"C22"},
	"C18 order-offer":              {"C21"},
	"C02 obligation-unpayable":     {"C01"},
	"C06 off-batch-effect":         {"C12", "C18"},
	"C06 finished-order-touched":   {"C24"},
	"C22 wrong-denoms":             {"C03", "C02", "C14"},
	"C03 overspending":             {"C02"},
	"C17 invalid-accepted":         {"C14"},
	"C18 last-price-without-trade": {"C12"},
	"C24 pool-event":               {"C04"},
}

func (m *DexMon) v(prop, key, f string, a ...any) {
	m.R.Violate(prop, key, f, a...)
	for _, p := range alsoBroken[prop+" "+key] {
		m.R.Violate(p, key, f, a...)
	}
}

func ordLive(s types.OrderStatus) bool {
	switch s {
	case types.OrderStatusNotExecuted, types.OrderStatusNotMatched, types.OrderStatusPartiallyMatched:
		return true
	}
	return false
}

func ordEq(a, b types.Order) bool {
	return a.Id == b.Id && a.PairId == b.PairId && a.Orderer == b.Orderer && a.Direction == b.Direction && a.Type == b.Type &&
		a.OfferCoin.IsEqual(b.OfferCoin) && a.RemainingOfferCoin.IsEqual(b.RemainingOfferCoin) && a.ReceivedCoin.IsEqual(b.ReceivedCoin) &&
		a.Price.Equal(b.Price) && a.Amount.Equal(b.Amount) && a.OpenAmount.Equal(b.OpenAmount) && a.BatchId == b.BatchId &&
		a.ExpireAt.Equal(b.ExpireAt) && a.Status == b.Status && a.MsgHeight == b.MsgHeight
}

func coinsEq(a, b sdk.Coins) bool { return a.String() == b.String() }

func depEq(a, b types.DepositRequest) bool {
	return a.Id == b.Id && a.PoolId == b.PoolId && a.Depositor == b.Depositor && coinsEq(a.DepositCoins, b.DepositCoins) &&
		coinsEq(a.AcceptedCoins, b.AcceptedCoins) && a.MintedPoolCoin.String() == b.MintedPoolCoin.String() && a.Status == b.Status && a.MsgHeight == b.MsgHeight
}

func wdEq(a, b types.WithdrawRequest) bool {
	return a.Id == b.Id && a.PoolId == b.PoolId && a.Withdrawer == b.Withdrawer && a.PoolCoin.String() == b.PoolCoin.String() &&
		coinsEq(a.WithdrawnCoins, b.WithdrawnCoins) && a.Status == b.Status && a.MsgHeight == b.MsgHeight
}

func pairEq(a, b types.Pair) bool {
	return a.Id == b.Id && a.BaseCoinDenom == b.BaseCoinDenom && a.QuoteCoinDenom == b.QuoteCoinDenom && a.EscrowAddress == b.EscrowAddress &&
		a.LastOrderId == b.LastOrderId && decPEq(a.LastPrice, b.LastPrice) && a.CurrentBatchId == b.CurrentBatchId
}

func decPEq(a, b *sm.LegacyDec) bool {
	if a == nil || b == nil {
		return (a == nil) == (b == nil)
	}
	return a.Equal(*b)
}

func poolEq(a, b types.Pool) bool {
	return a.Id == b.Id && a.PairId == b.PairId && a.Type == b.Type && a.Creator == b.Creator && a.ReserveAddress == b.ReserveAddress &&
		a.PoolCoinDenom == b.PoolCoinDenom && decPEq(a.MinPrice, b.MinPrice) && decPEq(a.MaxPrice, b.MaxPrice) &&
		a.LastDepositRequestId == b.LastDepositRequestId && a.LastWithdrawRequestId == b.LastWithdrawRequestId && a.Disabled == b.Disabled
}

// snapDiff lists what differs between two snapshots (balances included).
func snapDiff(a, b *Snap) []string {
	var out []string
	out = append(out, diffDelta(balDelta(a, b), Delta{})...)
	for _, d := range union(a.Sup, b.Sup) {
		if !a.Supply(d).Equal(b.Supply(d)) {
			out = append(out, fmt.Sprintf("supply of %s %s -> %s", d, a.Supply(d), b.Supply(d)))
		}
	}
	if a.LastPair != b.LastPair || a.LastPool != b.LastPool {
		out = append(out, fmt.Sprintf("last ids (%d,%d) -> (%d,%d)", a.LastPair, a.LastPool, b.LastPair, b.LastPool))
	}
	if a.Params.String() != b.Params.String() {
		out = append(out, "params changed")
	}
	cmpMap(&out, "pair", a.Pairs, b.Pairs, pairEq)
	cmpMap(&out, "pool", a.Pools, b.Pools, poolEq)
	cmpMap(&out, "order", a.Ord, b.Ord, ordEq)
	cmpMap(&out, "deposit request", a.Dep, b.Dep, depEq)
	cmpMap(&out, "withdraw request", a.Wd, b.Wd, wdEq)
	cmpMap(&out, "mm count", a.MM, b.MM, func(x, y uint32) bool { return x == y })
	return out
}

func cmpMap[K comparable, V any](out *[]string, what string, a, b map[K]V, eq func(x, y V) bool) {
	for k, x := range a {
		y, ok := b[k]
		if !ok {
			*out = append(*out, fmt.Sprintf("%s %v gone", what, k))
		} else if !eq(x, y) {
			*out = append(*out, fmt.Sprintf("%s %v: %v -> %v", what, k, x, y))
		}
	}
	for k, y := range b {
		if _, ok := a[k]; !ok {
			*out = append(*out, fmt.Sprintf("%s %v new: %v", what, k, y))
		}
	}
}

func union[V any](a, b map[string]V) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	return sortedKeys(m)
}

func (m *DexMon) Observe(w *World, st *Step, pre, post *Snap) {
	if m.UserSet == nil {
		m.UserSet = map[string]bool{}
		for _, u := range w.Users {
			m.UserSet[u.String()] = true
		}
	}
	m.finest = max(m.finest, int(pre.Params.TickPrecision))
	if pre.Params.TickPrecision != post.Params.TickPrecision {
		m.regrid = true
	}
	if pre.Params.MaxPriceLimitRatio.GT(m.MaxRatio) {
		m.MaxRatio = pre.Params.MaxPriceLimitRatio
	}
	if st.Panic != "" && st.Kind != StepTx {
		m.v("C14", "halt:"+panicKey(st.Panic), "block %s panicked at height %d: %s", st.Kind, st.Height, clip(st.Panic, 1800))
		if strings.Contains(st.Panic, "insufficient funds") || strings.Contains(st.Panic, "smaller than") {
			m.v("C02", "obligation-unpayable", "block processing failed because a custody account could not pay what it owes: %s", clip(firstLine(st.Panic), 400))
		}
		if strings.Contains(st.Panic, "negative coin amount") {
			m.v("C03", "overspending", "a fill takes more than is left of an order's offer, block processing failed: %s", clip(firstLine(st.Panic), 400))
		}
		if st.Kind == StepEnd {
			m.v("C06", "batch-aborted", "no request or order of this batch was dealt with, block processing failed: %s", clip(firstLine(st.Panic), 400))
		}
		return
	}
	if st.Err != nil && st.Kind != StepTx {
		m.v("C14", "halt:error", "block %s failed at height %d: %v", st.Kind, st.Height, st.Err)
		return
	}
	for _, p := range post.Pairs {
		m.Esc[p.EscrowAddress] = p.Id
	}
	for _, p := range post.Pools {
		m.Res[p.ReserveAddress] = p.Id
	}
	if !st.OK() {
		if st.Panic != "" {
			m.R.Count("tx_panics", 1)
		}
		if d := snapDiff(pre, post); len(d) > 0 {
			m.v("C13", "failed-tx-effect", "failed %s left effects: %s", st, join(d, 6))
		}
		if st.Kind == StepTx && st.Msg != nil {
			m.refused(st, pre)
		}
	} else {
		switch st.Kind {
		case StepTx:
			m.tx(w, st, pre, post)
		case StepBegin:
			m.begin(st, pre, post)
		case StepEnd:
			m.end(st, pre, post)
		}
	}
	m.state(st, pre, post)
}

func panicKey(s string) string {
	l := firstLine(s)
	// where in the repository
	for _, ln := range strings.Split(s, "\n") {
		if strings.HasPrefix(ln, "defund/x/dex") && !strings.Contains(ln, ".func") {
			if i := strings.IndexByte(ln, '('); i > 0 {
				_ = i
			}
			f := ln
			if i := strings.LastIndexByte(f, '('); i > 0 {
				f = f[:i]
			}
			return clip(digitsOut(l), 60) + "@" + f[strings.LastIndexByte(f, '/')+1:]
		}
	}
	return clip(digitsOut(l), 60)
}

func digitsOut(s string) string {
	var b strings.Builder
	prev := false
	for _, c := range s {
		if c >= '0' && c <= '9' {
			if !prev {
				b.WriteByte('N')
			}
			prev = true
			continue
		}
		prev = false
		b.WriteRune(c)
	}
	return b.String()
}

// ---- state invariants after every step -------------------------------------

func (m *DexMon) state(st *Step, pre, post *Snap) {
	// C01: the books balance
	tot := map[string]*big.Int{}
	for _, bm := range post.Bal {
		for d, v := range bm {
			if tot[d] == nil {
				tot[d] = new(big.Int)
			}
			tot[d].Add(tot[d], v.BigInt())
			if v.IsNegative() {
				m.v("C01", "negative-balance", "negative balance of %s after %s", d, st)
			}
		}
	}
	for d := range post.Sup {
		t := tot[d]
		if t == nil {
			t = new(big.Int)
		}
		if t.Cmp(post.Supply(d).BigInt()) != 0 {
			m.v("C01", "sum-of-balances", "sum of balances of %s is %s but recorded supply is %s after %s", d, t, post.Supply(d), st)
		}
	}
	poolDenom := map[string]uint64{}
	for _, p := range post.Pools {
		poolDenom[p.PoolCoinDenom] = p.Id
	}
	for _, d := range union(pre.Sup, post.Sup) {
		ds := post.Supply(d).Sub(pre.Supply(d))
		pid, isPool := poolDenom[d]
		if !isPool {
			if !ds.IsZero() {
				m.v("C01", "supply-changed", "supply of %s changed by %s in %s", d, ds, st)
			}
			continue
		}
		want := sm.ZeroInt()
		if st.OK() {
			if _, was := pre.Pools[pid]; !was {
				// created: minted amount must all be in the creator's hands
				want = post.B(post.Pools[pid].Creator, d)
				if !want.IsPositive() {
					m.v("C01", "pool-coin-mint", "new pool %d minted %s but creator holds %s", pid, ds, want)
				}
			}
			for k, r := range post.Dep {
				if k[0] == pid && r.Status == types.RequestStatusSucceeded && pre.Dep[k].Status != types.RequestStatusSucceeded {
					want = want.Add(r.MintedPoolCoin.Amount)
				}
			}
			for k, r := range post.Wd {
				if k[0] == pid && r.Status == types.RequestStatusSucceeded && pre.Wd[k].Status != types.RequestStatusSucceeded {
					want = want.Sub(r.PoolCoin.Amount)
				}
			}
		}
		if !want.Equal(ds) {
			m.v("C01", "pool-coin-supply", "pool coin %s supply changed by %s, recorded mints minus burns are %s, in %s", d, ds, want, st)
		}
	}
	for d, v := range post.Bal[m.modAddr] {
		if !v.Equal(pre.B(m.modAddr, d)) && !isSendTo(st, m.modAddr) {
			m.v("C01", "module-account", "module account holds %s%s after %s (before: %s)", v, d, st, pre.B(m.modAddr, d))
		}
	}

	// C02: escrow accounts hold exactly what they owe
	owed := Delta{}
	for _, p := range post.Pairs {
		_ = p
	}
	for k, o := range post.Ord {
		if ordLive(o.Status) {
			p, ok := post.Pairs[k[0]]
			if !ok {
				m.v("C06", "orphan-order", "order %v belongs to an unknown pair", k)
				continue
			}
			owed.Add(p.EscrowAddress, o.RemainingOfferCoin.Denom, o.RemainingOfferCoin.Amount)
		}
	}
	for _, r := range post.Dep {
		if r.Status == types.RequestStatusNotExecuted {
			owed.AddCoins(m.globEsc, r.DepositCoins, 1)
		}
	}
	for _, r := range post.Wd {
		if r.Status == types.RequestStatusNotExecuted {
			owed.Add(m.globEsc, r.PoolCoin.Denom, r.PoolCoin.Amount)
		}
	}
	escs := map[string]bool{m.globEsc: true}
	for _, p := range post.Pairs {
		escs[p.EscrowAddress] = true
	}
	for a := range escs {
		dens := map[string]bool{}
		for d := range post.Bal[a] {
			dens[d] = true
		}
		for d := range owed[a] {
			dens[d] = true
		}
		for d := range dens {
			want := owed.Get(a, d).Add(m.Don.Get(a, d))
			if got := post.B(a, d); !got.Equal(want) {
				key := "escrow-excess"
				if got.LT(want) {
					key = "escrow-short"
				}
				m.v("C02", key, "custody account %s holds %s%s but owes %s (incl. donations) after %s", m.name(a), got, d, want, st)
			}
		}
	}
	m.R.Count("escrow_states_checked", int64(len(escs)))

	// C07: market-making order counters
	cnt := map[string]uint32{}
	for _, o := range post.Ord {
		if o.Type == types.OrderTypeMM && ordLive(o.Status) {
			cnt[mmKey(o.Orderer, o.PairId)]++
		}
	}
	for k, c := range cnt {
		if post.MM[k] != c {
			m.v("C07", "mm-count", "%s has %d live market-making orders but the counter says %d after %s", k, c, post.MM[k], st)
		}
		m.R.Max("max:mm_live", int64(c))
	}
	for k, c := range post.MM {
		if cnt[k] != c {
			m.v("C07", "mm-count", "%s has %d live market-making orders but the counter says %d after %s", k, cnt[k], c, st)
		}
	}

	// C22: structural uniqueness
	type dp struct{ b, q string }
	pairs := map[dp]uint64{}
	addrs := map[string]string{m.globEsc: "global escrow", m.modAddr: "module account"}
	for _, id := range post.PairIDs() {
		p := post.Pairs[id]
		if o, ok := pairs[dp{p.BaseCoinDenom, p.QuoteCoinDenom}]; ok {
			m.v("C22", "duplicate-pair", "pairs %d and %d both trade %s/%s", o, id, p.BaseCoinDenom, p.QuoteCoinDenom)
		}
		pairs[dp{p.BaseCoinDenom, p.QuoteCoinDenom}] = id
		if p.BaseCoinDenom == p.QuoteCoinDenom {
			m.v("C22", "self-pair", "pair %d trades %s against itself", id, p.BaseCoinDenom)
		}
		if o, ok := addrs[p.EscrowAddress]; ok {
			m.v("C22", "shared-address", "pair %d shares its custody account with %s", id, o)
		}
		addrs[p.EscrowAddress] = fmt.Sprintf("pair %d", id)
		if id > post.LastPair || id == 0 {
			m.v("C22", "id-range", "pair id %d outside 1..%d", id, post.LastPair)
		}
	}
	if uint64(len(post.Pairs)) != post.LastPair {
		m.v("C22", "id-gap", "%d pairs but last pair id %d", len(post.Pairs), post.LastPair)
	}
	basic := map[uint64]uint64{}
	dens := map[string]uint64{}
	for _, id := range post.PoolIDs() {
		p := post.Pools[id]
		if p.Type == types.PoolTypeBasic && !p.Disabled {
			if o, ok := basic[p.PairId]; ok {
				m.v("C22", "two-basic-pools", "pools %d and %d are both active basic pools of pair %d after %s", o, id, p.PairId, st)
			}
			basic[p.PairId] = id
		}
		if o, ok := dens[p.PoolCoinDenom]; ok {
			m.v("C22", "shared-pool-coin", "pools %d and %d share the pool coin", o, id)
		}
		dens[p.PoolCoinDenom] = id
		if o, ok := addrs[p.ReserveAddress]; ok {
			m.v("C22", "shared-address", "pool %d shares its reserve account with %s", id, o)
		}
		addrs[p.ReserveAddress] = fmt.Sprintf("pool %d", id)
		if id > post.LastPool || id == 0 {
			m.v("C22", "id-range", "pool id %d outside 1..%d", id, post.LastPool)
		}
		if _, ok := post.Pairs[p.PairId]; !ok {
			m.v("C22", "orphan-pool", "pool %d of unknown pair %d", id, p.PairId)
		}
	}
	if uint64(len(post.Pools)) != post.LastPool {
		m.v("C22", "id-gap", "%d pools but last pool id %d", len(post.Pools), post.LastPool)
	}

	// C18: resting orders sit on the price grid, last price too
	prec := int(post.Params.TickPrecision)
	for k, o := range post.Ord {
		if _, was := pre.Ord[k]; !was && !refIsTick(o.Price, prec) {
			m.v("C18", "off-grid", "order %v was accepted at off-grid price %s", k, o.Price)
		}
		if !o.Price.IsPositive() {
			m.v("C18", "non-positive-price", "order %v has price %s", k, o.Price)
		}
	}

	// C05: a pool whose shares are all redeemed is closed; reserves never negative
	for _, p := range post.Pools {
		if post.Supply(p.PoolCoinDenom).IsZero() && !p.Disabled {
			m.v("C05", "no-shares-but-open", "pool %d has no shares outstanding but is not closed after %s", p.Id, st)
		}
	}
}

func isSendTo(st *Step, addr string) bool {
	s, ok := st.Msg.(*banktypes.MsgSend)
	return ok && s.ToAddress == addr
}

func (m *DexMon) name(a string) string {
	if a == m.globEsc {
		return "of pending deposits/withdrawals"
	}
	if id, ok := m.Esc[a]; ok {
		return fmt.Sprintf("of pair %d", id)
	}
	return a
}

// ---- transactions -----------------------------------------------------------

func newKeys[V any](pre, post map[ID2]V) []ID2 {
	var out []ID2
	for _, k := range sortedID2(post) {
		if _, ok := pre[k]; !ok {
			out = append(out, k)
		}
	}
	return out
}

func (m *DexMon) tx(w *World, st *Step, pre, post *Snap) {
	want := Delta{}
	fee := pre.Params.FeeCollectorAddress
	signer := st.Signer
	changedOrders := map[ID2]bool{}
	allowNewOrder, allowNewDep, allowNewWd := 0, 0, 0
	newPair, newPool := 0, 0
	switch msg := st.Msg.(type) {
	case *types.MsgCreatePair:
		newPair = 1
		want.Move(signer, fee, pre.Params.PairCreationFee)
		id := pre.LastPair + 1
		p, ok := post.Pairs[id]
		if !ok || post.LastPair != id {
			m.v("C22", "pair-id", "created pair did not get the next id %d", id)
		} else {
			if p.BaseCoinDenom != msg.BaseCoinDenom || p.QuoteCoinDenom != msg.QuoteCoinDenom || p.LastPrice != nil || p.CurrentBatchId != 1 || p.LastOrderId != 0 {
				m.v("C22", "pair-content", "created pair %v does not match %v", p, msg)
			}
		}
		m.feeCheck(st, pre, post, pre.Params.PairCreationFee, "pair")
	case *types.MsgCreatePool:
		newPool = 1
		m.newPool(st, pre, post, want, msg.PairId, msg.DepositCoins, true, nil)
		m.feeCheck(st, pre, post, pre.Params.PoolCreationFee, "pool")
	case *types.MsgCreateRangedPool:
		newPool = 1
		m.newPool(st, pre, post, want, msg.PairId, msg.DepositCoins, false, msg)
		m.feeCheck(st, pre, post, pre.Params.PoolCreationFee, "pool")
	case *types.MsgDeposit:
		allowNewDep = 1
		want.Move(signer, m.globEsc, msg.DepositCoins)
		ks := newKeys(pre.Dep, post.Dep)
		if len(ks) != 1 {
			m.v("C06", "deposit-record", "%d new records for one deposit", len(ks))
			break
		}
		k := ks[0]
		r := post.Dep[k]
		pp := pre.Pools[msg.PoolId]
		if k[0] != msg.PoolId || k[1] != pp.LastDepositRequestId+1 || post.Pools[msg.PoolId].LastDepositRequestId != k[1] {
			m.v("C06", "request-id", "deposit request id %v, previous %d", k, pp.LastDepositRequestId)
			m.v("C22", "request-id", "deposit request id %v, previous %d", k, pp.LastDepositRequestId)
		}
		if r.Depositor != signer || !coinsEq(r.DepositCoins, msg.DepositCoins) || r.Status != types.RequestStatusNotExecuted || !r.AcceptedCoins.IsZero() || !r.MintedPoolCoin.Amount.IsZero() || r.MsgHeight != st.Height {
			m.v("C06", "deposit-record", "deposit request %v does not record the message %v", r, msg)
		}
		if pp.Disabled {
			m.v("C05", "deposit-into-closed", "deposit accepted for closed pool %d", pp.Id)
		}
		for d, v := range addDenoms(pre, pp.ReserveAddress, msg.DepositCoins) {
			if v.GT(maxCoin) {
				m.v("C22", "pool-too-large", "deposit of %s accepted by pool %d, it would hold %s%s", msg.DepositCoins, pp.Id, v, d)
			}
		}
		if _, dup := m.SeenDep[k]; dup {
			m.v("C06", "id-reused", "deposit request id %v reused", k)
			m.v("C22", "id-reused", "deposit request id %v reused", k)
		}
		m.SeenDep[k] = "pending"
	case *types.MsgWithdraw:
		allowNewWd = 1
		want.Move(signer, m.globEsc, sdk.Coins{msg.PoolCoin})
		ks := newKeys(pre.Wd, post.Wd)
		if len(ks) != 1 {
			m.v("C06", "withdraw-record", "%d new records for one withdrawal", len(ks))
			break
		}
		k := ks[0]
		r := post.Wd[k]
		pp := pre.Pools[msg.PoolId]
		if k[0] != msg.PoolId || k[1] != pp.LastWithdrawRequestId+1 || post.Pools[msg.PoolId].LastWithdrawRequestId != k[1] {
			m.v("C06", "request-id", "withdraw request id %v, previous %d", k, pp.LastWithdrawRequestId)
			m.v("C22", "request-id", "withdraw request id %v, previous %d", k, pp.LastWithdrawRequestId)
		}
		if r.Withdrawer != signer || !r.PoolCoin.IsEqual(msg.PoolCoin) || r.Status != types.RequestStatusNotExecuted || !r.WithdrawnCoins.IsZero() || r.MsgHeight != st.Height {
			m.v("C06", "withdraw-record", "withdraw request %v does not record the message %v", r, msg)
		}
		if msg.PoolCoin.Denom != pp.PoolCoinDenom {
			m.v("C05", "foreign-pool-coin", "withdrawal from pool %d with %s accepted", pp.Id, msg.PoolCoin.Denom)
		}
		if _, dup := m.SeenWd[k]; dup {
			m.v("C06", "id-reused", "withdraw request id %v reused", k)
			m.v("C22", "id-reused", "withdraw request id %v reused", k)
		}
		m.SeenWd[k] = "pending"
	case *types.MsgLimitOrder:
		allowNewOrder = 1
		m.newOrder(st, pre, post, want, msg.PairId, types.OrderTypeLimit, msg.Direction, msg.OfferCoin, msg.DemandCoinDenom, &msg.Price, msg.Amount, msg.OrderLifespan)
	case *types.MsgMMOrder:
		allowNewOrder = 1
		m.newOrder(st, pre, post, want, msg.PairId, types.OrderTypeMM, msg.Direction, msg.OfferCoin, msg.DemandCoinDenom, &msg.Price, msg.Amount, msg.OrderLifespan)
		k := mmKey(signer, msg.PairId)
		if pre.MM[k] >= pre.Params.MaxNumMarketMakingOrdersPerPair {
			m.v("C07", "mm-cap", "%s already had %d market-making orders (cap %d) and one more was accepted", k, pre.MM[k], pre.Params.MaxNumMarketMakingOrdersPerPair)
		}
		live := uint32(0)
		for _, o := range post.Ord {
			if o.Type == types.OrderTypeMM && ordLive(o.Status) && o.Orderer == signer && o.PairId == msg.PairId {
				live++
			}
		}
		if live > pre.Params.MaxNumMarketMakingOrdersPerPair {
			m.v("C07", "mm-cap", "%s holds %d live market-making orders, cap %d", k, live, pre.Params.MaxNumMarketMakingOrdersPerPair)
		}
	case *types.MsgMarketOrder:
		allowNewOrder = 1
		m.newOrder(st, pre, post, want, msg.PairId, types.OrderTypeMarket, msg.Direction, msg.OfferCoin, msg.DemandCoinDenom, nil, msg.Amount, msg.OrderLifespan)
	case *types.MsgCancelOrder:
		k := ID2{msg.PairId, msg.OrderId}
		o := pre.Ord[k]
		if o.Orderer != signer {
			m.v("C16", "cancel-foreign", "%s cancelled order %v of %s", signer, k, o.Orderer)
		}
		if o.BatchId == pre.Pairs[msg.PairId].CurrentBatchId {
			m.v("C06", "cancel-same-batch", "order %v cancelled within its own batch %d", k, o.BatchId)
		}
		if ordLive(o.Status) {
			m.cancelled(k, pre, post, want, changedOrders)
		} else if o.Status == types.OrderStatusCanceled {
			m.v("C06", "cancel-twice", "order %v cancelled twice", k)
		}
	case *types.MsgCancelAllOrders:
		in := map[uint64]bool{}
		for _, id := range msg.PairIds {
			in[id] = true
		}
		for _, k := range sortedID2(pre.Ord) {
			o := pre.Ord[k]
			if o.Orderer != signer || !ordLive(o.Status) || (len(in) > 0 && !in[k[0]]) {
				continue
			}
			if o.BatchId < pre.Pairs[k[0]].CurrentBatchId {
				m.cancelled(k, pre, post, want, changedOrders)
				if post.Ord[k].Status != types.OrderStatusCanceled {
					m.v("C16", "cancel-all-skips", "cancelling in bulk (%s) left the sender's order %v", st, k)
				}
			}
		}
	case *types.MsgUpdateParams:
		if signer != govAuthority().String() {
			m.v("C16", "params-by-stranger", "parameters changed by %s", signer)
		}
		if post.Params.String() != msg.Params.String() {
			m.v("C17", "params-differ", "accepted parameter update was not stored as given")
		}
		if why := refParamsInvalid(msg.Params); why != "" {
			m.v("C17", "invalid-accepted:"+why, "parameter update accepted although %s", why)
		}
	case *banktypes.MsgSend:
		want.Move(msg.FromAddress, msg.ToAddress, msg.Amount)
		if _, isEsc := m.Esc[msg.ToAddress]; isEsc || msg.ToAddress == m.globEsc {
			m.Don.AddCoins(msg.ToAddress, msg.Amount, 1)
		}
	}
	m.matchEvents(st, m.wantTxEvents(st, pre, post))
	got := balDelta(pre, post)
	if d := diffDelta(got, want); len(d) > 0 {
		m.v("C24", "tx-ledger", "balances moved differently from what %s recorded: %s", st, join(d, 8))
		m.v("C01", "tx-ledger", "coins did not arrive where %s sends them: %s", st, join(d, 8))
		for _, c := range m.concernedTx(st.Msg) {
			m.v(c, "tx-ledger", "coins did not move as %s requires: %s", st, join(d, 8))
		}
	}
	// nobody but the signer may lose anything in a transaction
	for a, dm := range got {
		for d, v := range dm {
			if v.IsNegative() && a != signer {
				if _, esc := m.Esc[a]; esc {
					continue // refunds are judged by the ledger
				}
				m.v("C16", "third-party-loses", "%s lost %s%s in a transaction signed by %s: %s", a, v, d, signer, st)
			}
		}
	}
	if _, ok := st.Msg.(*types.MsgUpdateParams); !ok && pre.Params.String() != post.Params.String() {
		m.v("C16", "params-by-other-message", "parameters changed by %s", st)
	}
	// nothing else changed
	for k, o := range pre.Ord {
		p, ok := post.Ord[k]
		if !ok {
			m.v("C06", "order-vanished", "order %v vanished in %s", k, st)
			continue
		}
		if changedOrders[k] {
			continue
		}
		if !ordEq(o, p) {
			m.v("C06", "order-touched", "order %v changed by %s: %v -> %v", k, st, o, p)
			if o.Orderer != signer {
				m.v("C16", "foreign-order-changed", "order %v of %s changed by %s", k, o.Orderer, st)
			} else if _, bulk := st.Msg.(*types.MsgCancelAllOrders); bulk {
				m.v("C16", "unnamed-order-changed", "order %v is on none of the named pairs (or not yet cancellable) but was changed by %s", k, st)
			}
		}
	}
	if nk := newKeys(pre.Ord, post.Ord); len(nk) > allowNewOrder {
		m.v("C06", "order-appeared", "%d orders appeared in %s", len(nk), st)
	}
	for k, r := range pre.Dep {
		if p, ok := post.Dep[k]; !ok || !depEq(r, p) {
			m.v("C06", "deposit-touched", "deposit request %v changed by %s", k, st)
		}
	}
	for k, r := range pre.Wd {
		if p, ok := post.Wd[k]; !ok || !wdEq(r, p) {
			m.v("C06", "withdraw-touched", "withdraw request %v changed by %s", k, st)
		}
	}
	if len(newKeys(pre.Dep, post.Dep)) > allowNewDep || len(newKeys(pre.Wd, post.Wd)) > allowNewWd {
		m.v("C06", "request-appeared", "requests appeared in %s", st)
	}
	if len(post.Pairs) != len(pre.Pairs)+newPair || len(post.Pools) != len(pre.Pools)+newPool {
		m.v("C22", "unexpected-object", "pairs %d->%d pools %d->%d in %s", len(pre.Pairs), len(post.Pairs), len(pre.Pools), len(post.Pools), st)
	}
	for id, p := range pre.Pairs {
		q := post.Pairs[id]
		if q.CurrentBatchId != p.CurrentBatchId || !decPEq(p.LastPrice, q.LastPrice) || p.EscrowAddress != q.EscrowAddress || p.BaseCoinDenom != q.BaseCoinDenom || p.QuoteCoinDenom != q.QuoteCoinDenom {
			m.v("C06", "pair-touched", "pair %d changed by a transaction: %v -> %v in %s", id, p, q, st)
			if !decPEq(p.LastPrice, q.LastPrice) {
				m.v("C18", "last-price-by-tx", "last price of pair %d changed outside matching in %s", id, st)
			}
		}
	}
	for id, p := range pre.Pools {
		q := post.Pools[id]
		if p.Disabled != q.Disabled {
			m.v("C05", "pool-flag-by-tx", "pool %d open/closed state changed by %s", id, st)
		}
	}
}

func (m *DexMon) feeCheck(st *Step, pre, post *Snap, fee sdk.Coins, what string) {
	fc := pre.Params.FeeCollectorAddress
	for _, c := range fee {
		if d := post.B(fc, c.Denom).Sub(pre.B(fc, c.Denom)); !d.Equal(c.Amount) && st.Signer != fc {
			m.v("C21", what+"-creation-fee", "%s creation fee is %s but the fee collector received %s%s", what, c, d, c.Denom)
		}
	}
	for d, v := range post.Bal[fc] {
		if x := v.Sub(pre.B(fc, d)); !x.Equal(fee.AmountOf(d)) {
			m.v("C21", what+"-creation-fee", "%s creation fee is %s but the fee collector received %s%s", what, fee, x, d)
		}
	}
	m.R.Count("fees_checked", 1)
}

func (m *DexMon) cancelled(k ID2, pre, post *Snap, want Delta, changed map[ID2]bool) {
	o := pre.Ord[k]
	p, ok := post.Ord[k]
	changed[k] = true
	if !ok || p.Status != types.OrderStatusCanceled {
		m.v("C06", "cancel-ignored", "order %v of an accepted cancellation has status %s", k, p.Status)
		return
	}
	q := p
	q.Status = o.Status
	if !ordEq(o, q) {
		m.v("C06", "cancel-changed-record", "cancellation changed more than the status: %v -> %v", o, p)
	}
	want.Move(pre.Pairs[k[0]].EscrowAddress, o.Orderer, sdk.NewCoins(o.RemainingOfferCoin))
	m.finish(k, "cancelled")
	m.R.Count("orders_cancelled", 1)
}

func (m *DexMon) finish(k ID2, how string) {
	if old, ok := m.Finished[k]; ok {
		m.v("C06", "finished-twice", "order %v finished twice (%s, then %s)", k, old, how)
	}
	m.Finished[k] = how
}

func (m *DexMon) newOrder(st *Step, pre, post *Snap, want Delta, pid uint64, typ types.OrderType, dir types.OrderDirection, offer sdk.Coin, demand string, price *sm.LegacyDec, amt sm.Int, life time.Duration) {
	pair := pre.Pairs[pid]
	k := ID2{pid, pair.LastOrderId + 1}
	o, ok := post.Ord[k]
	if !ok || post.Pairs[pid].LastOrderId != k[1] {
		m.v("C06", "order-id", "accepted order did not get the next id %v", k)
		m.v("C22", "order-id", "accepted order did not get the next id %v", k)
		return
	}
	prec := int(pre.Params.TickPrecision)
	var expPrice sm.LegacyDec
	lo, hi := sm.LegacyDec{}, sm.LegacyDec{}
	if pair.LastPrice != nil {
		lo, hi = refBand(*pair.LastPrice, pre.Params.MaxPriceLimitRatio, prec)
	}
	buy := dir == types.OrderDirectionBuy
	if typ == types.OrderTypeMarket {
		if pair.LastPrice == nil {
			m.v("C18", "market-without-price", "market order accepted in pair %d which has no last price", pid)
			return
		}
		expPrice = lo
		if buy {
			expPrice = hi
		}
	} else {
		if buy {
			expPrice = refDownTick(*price, prec)
		} else {
			expPrice = refUpTick(*price, prec)
		}
		if pair.LastPrice != nil {
			if price.LT(lo) || price.GT(hi) {
				m.v("C18", "out-of-band", "order at %s accepted with last price %s and band [%s, %s]", *price, pair.LastPrice, lo, hi)
			}
		} else if price.LT(refLowestTick(prec)) {
			m.v("C18", "below-lowest", "order at %s accepted below the lowest price %s", *price, refLowestTick(prec))
		}
	}
	if !o.Price.Equal(expPrice) {
		m.v("C18", "wrong-price", "order recorded at %s, expected %s (submitted %v, last %v)", o.Price, expPrice, price, pair.LastPrice)
	}
	if buy && price != nil && o.Price.GT(*price) || !buy && price != nil && o.Price.LT(*price) {
		m.v("C03", "limit-worsened", "order recorded at %s, worse than the submitted limit %s", o.Price, *price)
	}
	expOffer := refOffer(buy, o.Price, amt)
	if !o.OfferCoin.Amount.Equal(expOffer) || o.OfferCoin.Denom != offer.Denom {
		m.v("C24", "order-offer", "order escrows %s, expected %s%s", o.OfferCoin, expOffer, offer.Denom)
		m.v("C18", "order-offer", "order escrows %s at price %s, it needs %s%s and the rest is to be returned at once", o.OfferCoin, o.Price, expOffer, offer.Denom)
	}
	if o.OfferCoin.Amount.GT(offer.Amount) {
		m.v("C03", "offer-exceeded", "order escrows %s although only %s was offered", o.OfferCoin, offer)
	}
	if o.Orderer != st.Signer || o.PairId != pid || o.Direction != dir || o.Type != typ || !o.Amount.Equal(amt) || !o.OpenAmount.Equal(amt) ||
		!o.RemainingOfferCoin.IsEqual(o.OfferCoin) || !o.ReceivedCoin.Amount.IsZero() || o.ReceivedCoin.Denom != demand ||
		o.Status != types.OrderStatusNotExecuted || o.BatchId != pair.CurrentBatchId || !o.ExpireAt.Equal(st.Time.Add(life)) || o.MsgHeight != st.Height {
		m.v("C06", "order-record", "order record %v does not match the message %v", o, st.Msg)
	}
	bd, qd := pair.BaseCoinDenom, pair.QuoteCoinDenom
	if buy && (offer.Denom != qd || demand != bd) || !buy && (offer.Denom != bd || demand != qd) {
		m.v("C22", "wrong-denoms", "order with offer %s demand %s accepted in pair %s/%s", offer.Denom, demand, bd, qd)
	}
	if life > pre.Params.MaxOrderLifespan {
		m.v("C22", "lifespan", "order lifespan %s accepted, max is %s", life, pre.Params.MaxOrderLifespan)
	}
	if amt.LT(sm.NewInt(100)) || o.Price.MulInt(amt).LT(sm.LegacyNewDec(100)) || amt.GT(maxCoin) || offer.Amount.GT(maxCoin) {
		m.v("C22", "order-size", "order of amount %s at %s accepted", amt, o.Price)
	}
	want.Move(st.Signer, pair.EscrowAddress, sdk.NewCoins(o.OfferCoin))
	if k[1] <= m.MaxOrd[pid] {
		m.v("C06", "id-reused", "order id %v reused", k)
		m.v("C22", "id-reused", "order id %v reused", k)
	}
	m.MaxOrd[pid] = k[1]
	m.Placed[k] = o
	m.LifePaid[k], m.LifeRecv[k] = sm.ZeroInt(), sm.ZeroInt()
	m.R.Count("orders_placed", 1)
}

// maxCoin is the largest amount of a coin an order or a pool can have.
var maxCoin = sm.NewIntWithDecimal(1, 40)

// addDenoms is what an account will hold of the given coins once it gets them.
func addDenoms(s *Snap, who string, cs sdk.Coins) map[string]sm.Int {
	out := map[string]sm.Int{}
	for _, c := range cs {
		out[c.Denom] = s.B(who, c.Denom).Add(c.Amount)
	}
	return out
}

func (m *DexMon) newPool(st *Step, pre, post *Snap, want Delta, pid uint64, dep sdk.Coins, basic bool, rm *types.MsgCreateRangedPool) {
	id := pre.LastPool + 1
	p, ok := post.Pools[id]
	if !ok || post.LastPool != id {
		m.v("C22", "pool-id", "created pool did not get the next id %d", id)
		return
	}
	pair := pre.Pairs[pid]
	acc := sdk.NewCoins()
	for d, v := range post.Bal[p.ReserveAddress] {
		if x := v.Sub(pre.B(p.ReserveAddress, d)); x.IsPositive() {
			acc = acc.Add(sdk.NewCoin(d, x))
		}
	}
	for _, c := range dep {
		if c.Denom != pair.BaseCoinDenom && c.Denom != pair.QuoteCoinDenom {
			m.v("C22", "foreign-coin-in-pool", "pool created in pair %s/%s with %s", pair.BaseCoinDenom, pair.QuoteCoinDenom, c)
		}
	}
	x, y := acc.AmountOf(pair.QuoteCoinDenom), acc.AmountOf(pair.BaseCoinDenom)
	if basic {
		if !acc.Equal(dep) {
			m.v("C05", "creation-deposit", "basic pool created with %s took %s", dep, acc)
		}
	} else if !acc.IsAllLTE(dep) {
		m.v("C05", "creation-overcharge", "ranged pool created with %s took %s", dep, acc)
	}
	for _, c := range dep {
		if c.Amount.GT(maxCoin) {
			m.v("C22", "pool-too-large", "pool created with %s", dep)
		}
	}
	min := pre.Params.MinInitialDepositAmount
	if basic && (x.LT(min) || y.LT(min)) || !basic && x.LT(min) && y.LT(min) {
		m.v("C22", "min-deposit", "pool created with %s although the minimum deposit is %s", acc, min)
	}
	active, hasBasic := 0, false
	for _, q := range pre.Pools {
		if q.PairId == pid && !q.Disabled {
			active++
			if q.Type == types.PoolTypeBasic {
				hasBasic = true
			}
		}
	}
	if basic && hasBasic {
		m.v("C22", "two-basic-pools", "second active basic pool created in pair %d", pid)
	}
	if uint32(active) >= pre.Params.MaxNumActivePoolsPerPair {
		m.v("C22", "too-many-pools", "pool created in pair %d which already had %d active pools (max %d)", pid, active, pre.Params.MaxNumActivePoolsPerPair)
	}
	ps := post.Supply(p.PoolCoinDenom)
	if !pre.Supply(p.PoolCoinDenom).IsZero() {
		m.v("C22", "pool-coin-exists", "pool coin %s existed before the pool", p.PoolCoinDenom)
	}
	exp := sm.MaxInt(refInitialShares(x, y), pre.Params.MinInitialPoolCoinSupply)
	if !ps.Equal(exp) {
		m.v("C05", "initial-shares", "pool with %s minted %s shares, expected %s", acc, ps, exp)
	}
	if p.PairId != pid || p.Creator != st.Signer || p.Disabled || p.LastDepositRequestId != 0 || p.LastWithdrawRequestId != 0 ||
		(p.Type == types.PoolTypeBasic) != basic {
		m.v("C22", "pool-content", "created pool %v does not match %v", p, st.Msg)
	}
	if rm != nil {
		prec := int(pre.Params.TickPrecision)
		if p.MinPrice == nil || p.MaxPrice == nil || !p.MinPrice.Equal(rm.MinPrice) || !p.MaxPrice.Equal(rm.MaxPrice) {
			m.v("C22", "pool-content", "ranged pool %v does not match %v", p, rm)
		}
		if !refIsTick(rm.MinPrice, prec) || !refIsTick(rm.MaxPrice, prec) || !refIsTick(rm.InitialPrice, prec) || rm.MinPrice.LT(refLowestTick(prec)) {
			m.v("C18", "range-off-grid", "ranged pool accepted with off-grid prices %s %s %s", rm.MinPrice, rm.MaxPrice, rm.InitialPrice)
		}
		if rm.InitialPrice.LT(rm.MinPrice) || rm.InitialPrice.GT(rm.MaxPrice) {
			m.v("C18", "initial-outside-range", "ranged pool accepted with initial price %s outside [%s,%s]", rm.InitialPrice, rm.MinPrice, rm.MaxPrice)
		}
		// the initial price is honoured
		if pp, err := refPoolPrice(p, x, y, ps); err == nil && x.GT(sm.NewInt(1000000)) && y.GT(sm.NewInt(1000000)) {
			diff := pp.Sub(rm.InitialPrice).Abs()
			if diff.GT(rm.InitialPrice.Mul(dec("0.01"))) && diff.GT(dec("0.000000000001")) {
				m.v("C05", "initial-price", "ranged pool quotes %s right after being created at %s (range %s..%s, %s)", pp, rm.InitialPrice, rm.MinPrice, rm.MaxPrice, acc)
			}
		}
	}
	want.Move(st.Signer, p.ReserveAddress, acc)
	want.Move(st.Signer, pre.Params.FeeCollectorAddress, pre.Params.PoolCreationFee)
	want.Add(st.Signer, p.PoolCoinDenom, exp)
	m.R.Count("pools_created", 1)
}

func refPoolPrice(p types.Pool, x, y, ps sm.Int) (d sm.LegacyDec, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	return p.AMMPool(x, y, ps).Price(), nil
}

func refInitialShares(x, y sm.Int) sm.Int {
	c := (len(x.String()) + len(y.String()) + 1) / 2
	return sm.NewIntFromBigInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(c)), nil))
}

// ---- block begin -------------------------------------------------------------

func (m *DexMon) begin(st *Step, pre, post *Snap) {
	if d := diffDelta(balDelta(pre, post), Delta{}); len(d) > 0 {
		m.v("C24", "begin-ledger", "block begin moved money: %s", join(d, 6))
		m.v("C01", "begin-ledger", "block begin moved money: %s", join(d, 6))
	}
	for k, o := range pre.Ord {
		p, ok := post.Ord[k]
		live := ordLive(o.Status)
		switch {
		case live && !ok:
			m.v("C06", "live-order-deleted", "live order %v (%s) deleted at block begin", k, o.Status)
		case live && !ordEq(o, p):
			m.v("C06", "order-touched", "order %v changed at block begin: %v -> %v", k, o, p)
		case !live && ok:
			m.v("C06", "finished-order-kept", "finished order %v (%s) not cleaned up at block begin", k, o.Status)
		}
	}
	for k, r := range pre.Dep {
		p, ok := post.Dep[k]
		pend := r.Status == types.RequestStatusNotExecuted
		switch {
		case pend && !ok:
			m.v("C06", "pending-request-deleted", "pending deposit %v deleted at block begin", k)
		case pend && !depEq(r, p):
			m.v("C06", "deposit-touched", "deposit %v changed at block begin", k)
		case !pend && ok:
			m.v("C06", "finished-request-kept", "finished deposit %v not cleaned up", k)
		}
	}
	for k, r := range pre.Wd {
		p, ok := post.Wd[k]
		pend := r.Status == types.RequestStatusNotExecuted
		switch {
		case pend && !ok:
			m.v("C06", "pending-request-deleted", "pending withdrawal %v deleted at block begin", k)
		case pend && !wdEq(r, p):
			m.v("C06", "withdraw-touched", "withdrawal %v changed at block begin", k)
		case !pend && ok:
			m.v("C06", "finished-request-kept", "finished withdrawal %v not cleaned up", k)
		}
	}
	if len(newKeys(pre.Ord, post.Ord))+len(newKeys(pre.Dep, post.Dep))+len(newKeys(pre.Wd, post.Wd)) > 0 {
		m.v("C06", "appeared-at-begin", "records appeared at block begin")
	}
	var out []string
	cmpMap(&out, "pair", pre.Pairs, post.Pairs, pairEq)
	cmpMap(&out, "pool", pre.Pools, post.Pools, poolEq)
	if len(out) > 0 {
		m.v("C06", "begin-touched", "block begin changed %s", join(out, 4))
	}
}

// ---- block end -----------------------------------------------------------------

type fill struct {
	k              ID2
	pre, post      types.Order
	amt            sm.Int // base amount matched
	paid, received sm.Int
}

func (m *DexMon) end(st *Step, pre, post *Snap) {
	batch := st.Height%int64(pre.Params.BatchSize) == 0
	if !batch {
		if d := snapDiff(pre, post); len(d) > 0 {
			m.v("C06", "off-batch-effect", "block %d is not a batch end (batch size %d) but changed: %s", st.Height, pre.Params.BatchSize, join(d, 5))
		}
		return
	}
	m.R.Count("batches", 1)
	want := Delta{}
	dustAddr := pre.Params.DustCollectorAddress
	// --- orders
	fills := map[uint64][]fill{}
	if nk := newKeys(pre.Ord, post.Ord); len(nk) > 0 {
		m.v("C06", "order-appeared", "orders %v appeared at block end", nk)
	}
	for _, k := range sortedID2(pre.Ord) {
		o := pre.Ord[k]
		p, ok := post.Ord[k]
		if !ok {
			m.v("C06", "order-vanished", "order %v vanished at block end", k)
			continue
		}
		pair := pre.Pairs[k[0]]
		if !ordLive(o.Status) {
			if !ordEq(o, p) {
				m.v("C06", "finished-order-touched", "finished order %v changed: %v -> %v", k, o, p)
			}
			continue
		}
		// immutable part
		q := p
		q.Status, q.OpenAmount, q.RemainingOfferCoin, q.ReceivedCoin = o.Status, o.OpenAmount, o.RemainingOfferCoin, o.ReceivedCoin
		if !ordEq(o, q) {
			m.v("C06", "order-identity", "order %v changed its terms: %v -> %v", k, o, p)
		}
		f := fill{k: k, pre: o, post: p, amt: o.OpenAmount.Sub(p.OpenAmount), paid: o.RemainingOfferCoin.Amount.Sub(p.RemainingOfferCoin.Amount),
			received: p.ReceivedCoin.Amount.Sub(o.ReceivedCoin.Amount)}
		filled := !f.amt.IsZero() || !f.paid.IsZero() || !f.received.IsZero()
		tooSmall := p.OpenAmount.LT(sm.NewInt(100)) || p.Price.MulInt(p.OpenAmount).LT(sm.LegacyNewDec(100))
		expired := !o.ExpireAt.After(st.Time)
		if filled {
			fills[k[0]] = append(fills[k[0]], f)
			if f.amt.IsNegative() || !f.amt.IsPositive() || f.paid.IsNegative() || f.received.IsNegative() || p.OpenAmount.IsNegative() || p.RemainingOfferCoin.Amount.IsNegative() {
				m.v("C03", "negative-fill", "order %v fill amount %s paid %s received %s", k, f.amt, f.paid, f.received)
			}
			if expired && o.Status != types.OrderStatusNotExecuted {
				m.v("C06", "expired-order-matched", "order %v expired at %s but was matched at %s", k, o.ExpireAt, st.Time)
			}
			if _, ok := m.LifePaid[k]; !ok { // its record did not carry the expected identifier
				m.LifePaid[k], m.LifeRecv[k] = sm.ZeroInt(), sm.ZeroInt()
			}
			m.LifePaid[k] = m.LifePaid[k].Add(f.paid)
			m.LifeRecv[k] = m.LifeRecv[k].Add(f.received)
			m.R.Count("user_fills", 1)
		}
		// status machine
		switch p.Status {
		case types.OrderStatusNotExecuted:
			m.v("C06", "never-attempted", "order %v still not executed after its batch", k)
		case types.OrderStatusNotMatched:
			if filled || !p.OpenAmount.Equal(p.Amount) {
				m.v("C06", "status-notmatched", "order %v has status not-matched but was filled: %v", k, p)
			}
			if o.Status == types.OrderStatusPartiallyMatched {
				m.v("C06", "status-regressed", "order %v went from partially matched to not matched", k)
			}
		case types.OrderStatusPartiallyMatched:
			if p.OpenAmount.Equal(p.Amount) || p.OpenAmount.IsZero() {
				m.v("C06", "status-partial", "order %v is partially matched with open %s of %s", k, p.OpenAmount, p.Amount)
			}
		case types.OrderStatusCompleted:
			if !p.OpenAmount.IsZero() {
				m.v("C06", "completed-open", "order %v completed with open amount %s", k, p.OpenAmount)
			}
			m.finish(k, "completed")
			want.Move(pair.EscrowAddress, o.Orderer, sdk.NewCoins(p.RemainingOfferCoin))
		case types.OrderStatusExpired:
			if !expired && !tooSmall {
				m.v("C06", "expired-early", "order %v expired at %s, its lifetime ends %s and it is not too small (open %s at %s)", k, st.Time, o.ExpireAt, p.OpenAmount, p.Price)
			}
			if p.OpenAmount.IsZero() {
				m.v("C06", "filled-but-expired", "fully filled order %v marked expired", k)
			}
			m.finish(k, "expired")
			want.Move(pair.EscrowAddress, o.Orderer, sdk.NewCoins(p.RemainingOfferCoin))
		case types.OrderStatusCanceled:
			m.v("C06", "cancelled-at-end", "order %v cancelled without a request", k)
		default:
			m.v("C06", "bad-status", "order %v has status %v", k, p.Status)
		}
		if ordLive(p.Status) && expired {
			m.v("C06", "not-expired", "order %v outlived its lifetime (%s, now %s)", k, o.ExpireAt, st.Time)
		}
		if ordLive(p.Status) && tooSmall {
			m.v("C06", "too-small-kept", "order %v with open amount %s at %s is kept although too small", k, p.OpenAmount, p.Price)
		}
		if ordLive(p.Status) && p.OpenAmount.IsZero() {
			m.v("C06", "filled-kept", "fully filled order %v kept live", k)
		}
		want.Move(o.Orderer, "", nil)
		rd := sdk.NewCoin(o.ReceivedCoin.Denom, sm.MaxInt(f.received, sm.ZeroInt()))
		want.AddCoins(o.Orderer, sdk.NewCoins(rd), 1)
		want.AddCoins(pair.EscrowAddress, sdk.NewCoins(rd), -1)
	}
	// --- deposits / withdrawals records and the reserves right after matching
	accepted, withdrawn := Delta{}, Delta{}
	for _, k := range sortedID2(pre.Dep) {
		r := pre.Dep[k]
		p, ok := post.Dep[k]
		if !ok {
			m.v("C06", "deposit-vanished", "deposit request %v vanished at block end", k)
			continue
		}
		if r.Status != types.RequestStatusNotExecuted {
			if !depEq(r, p) {
				m.v("C06", "finished-request-touched", "finished deposit %v changed", k)
			}
			continue
		}
		if p.Depositor != r.Depositor || !coinsEq(p.DepositCoins, r.DepositCoins) || p.PoolId != r.PoolId || p.Id != r.Id || p.MsgHeight != r.MsgHeight {
			m.v("C06", "request-identity", "deposit %v changed its terms: %v -> %v", k, r, p)
		}
		pool := post.Pools[r.PoolId]
		switch p.Status {
		case types.RequestStatusSucceeded:
			m.SeenDep[k] = "succeeded"
			accepted.AddCoins(pool.ReserveAddress, p.AcceptedCoins, 1)
			want.AddCoins(pool.ReserveAddress, p.AcceptedCoins, 1)
			ref, neg := r.DepositCoins.SafeSub(p.AcceptedCoins...)
			if neg {
				m.v("C05", "deposit-overcharge", "deposit %v offered %s but %s was taken", k, r.DepositCoins, p.AcceptedCoins)
			} else {
				want.AddCoins(r.Depositor, ref, 1)
			}
			want.Add(r.Depositor, pool.PoolCoinDenom, p.MintedPoolCoin.Amount)
			if p.MintedPoolCoin.Denom != pool.PoolCoinDenom {
				m.v("C05", "wrong-pool-coin", "deposit %v minted %s", k, p.MintedPoolCoin)
			}
			m.R.Count("deposits_succeeded", 1)
		case types.RequestStatusFailed:
			m.SeenDep[k] = "failed"
			want.AddCoins(r.Depositor, r.DepositCoins, 1)
			if !p.AcceptedCoins.IsZero() || p.MintedPoolCoin.Amount.IsPositive() {
				m.v("C06", "failed-request-content", "failed deposit %v records accepted %s minted %s", k, p.AcceptedCoins, p.MintedPoolCoin)
				m.v("C13", "failed-request-content", "failed deposit %v records accepted %s minted %s", k, p.AcceptedCoins, p.MintedPoolCoin)
			}
			m.R.Count("deposits_failed", 1)
		default:
			m.v("C06", "request-not-executed", "deposit %v has status %s after its batch", k, p.Status)
			want.AddCoins(r.Depositor, nil, 1)
			continue
		}
		want.AddCoins(m.globEsc, r.DepositCoins, -1)
	}
	for _, k := range sortedID2(pre.Wd) {
		r := pre.Wd[k]
		p, ok := post.Wd[k]
		if !ok {
			m.v("C06", "withdraw-vanished", "withdraw request %v vanished at block end", k)
			continue
		}
		if r.Status != types.RequestStatusNotExecuted {
			if !wdEq(r, p) {
				m.v("C06", "finished-request-touched", "finished withdrawal %v changed", k)
			}
			continue
		}
		if p.Withdrawer != r.Withdrawer || !p.PoolCoin.IsEqual(r.PoolCoin) || p.PoolId != r.PoolId || p.Id != r.Id || p.MsgHeight != r.MsgHeight {
			m.v("C06", "request-identity", "withdrawal %v changed its terms: %v -> %v", k, r, p)
		}
		pool := post.Pools[r.PoolId]
		switch p.Status {
		case types.RequestStatusSucceeded:
			m.SeenWd[k] = "succeeded"
			withdrawn.AddCoins(pool.ReserveAddress, p.WithdrawnCoins, 1)
			want.Move(pool.ReserveAddress, r.Withdrawer, p.WithdrawnCoins)
			m.R.Count("withdrawals_succeeded", 1)
		case types.RequestStatusFailed:
			m.SeenWd[k] = "failed"
			want.AddCoins(r.Withdrawer, sdk.Coins{r.PoolCoin}, 1)
			if !p.WithdrawnCoins.IsZero() {
				m.v("C06", "failed-request-content", "failed withdrawal %v records %s", k, p.WithdrawnCoins)
				m.v("C13", "failed-request-content", "failed withdrawal %v records %s", k, p.WithdrawnCoins)
			}
			m.R.Count("withdrawals_failed", 1)
		default:
			m.v("C06", "request-not-executed", "withdrawal %v has status %s after its batch", k, p.Status)
			continue
		}
		want.AddCoins(m.globEsc, sdk.Coins{r.PoolCoin}, -1)
	}
	if len(newKeys(pre.Dep, post.Dep))+len(newKeys(pre.Wd, post.Wd)) > 0 {
		m.v("C06", "request-appeared", "requests appeared at block end")
	}
	// swap result of every pool = reserve change not explained by deposits/withdrawals
	swap := Delta{}
	for _, id := range post.PoolIDs() {
		p := post.Pools[id]
		pair := post.Pairs[p.PairId]
		for _, d := range []string{pair.QuoteCoinDenom, pair.BaseCoinDenom} {
			x := post.B(p.ReserveAddress, d).Sub(pre.B(p.ReserveAddress, d)).Sub(accepted.Get(p.ReserveAddress, d)).Add(withdrawn.Get(p.ReserveAddress, d))
			swap.Add(p.ReserveAddress, d, x)
		}
	}
	// --- per pair matching
	evPool := poolMatchEvents(st)
	dustTotal := Delta{}
	for _, id := range pre.PairIDs() {
		pp, qp := pre.Pairs[id], post.Pairs[id]
		if qp.CurrentBatchId != pp.CurrentBatchId+1 {
			m.v("C06", "batch-counter", "pair %d batch %d -> %d", id, pp.CurrentBatchId, qp.CurrentBatchId)
		}
		if qp.LastOrderId != pp.LastOrderId || qp.EscrowAddress != pp.EscrowAddress || qp.BaseCoinDenom != pp.BaseCoinDenom || qp.QuoteCoinDenom != pp.QuoteCoinDenom {
			m.v("C06", "pair-touched", "pair %d changed at block end: %v -> %v", id, pp, qp)
		}
		m.matchPair(st, pre, post, id, fills[id], swap, evPool, dustTotal, want)
	}
	for d, v := range dustTotal[dustAddr] {
		if v.IsNegative() {
			m.v("C21", "negative-dust", "sellers received %s%s more than buyers paid", v.Neg(), d)
		}
	}
	got := balDelta(pre, post)
	for _, d := range union(got[dustAddr], dustTotal[dustAddr]) {
		if !got.Get(dustAddr, d).Equal(dustTotal.Get(dustAddr, d)) && !m.UserSet[dustAddr] {
			m.v("C21", "dust", "dust collector received %s%s, rounding surplus of the batch is %s", got.Get(dustAddr, d), d, dustTotal.Get(dustAddr, d))
		}
	}
	// pool coin supply changes do not move between accounts: mints go to depositors (in want), burns leave escrow (in want)
	if d := diffDelta(got, want); len(d) > 0 {
		m.v("C24", "end-ledger", "block end moved balances differently from the recorded outcomes at height %d: %s", st.Height, join(d, 8))
		m.v("C01", "end-ledger", "coins did not arrive at the accounts entitled to them by the outcomes of the batch at height %d: %s", st.Height, join(d, 8))
		for _, c := range m.concernedEnd(pre, post, got, want) {
			m.v(c, "end-ledger", "accounts did not receive what the outcomes of the batch at height %d entitle them to: %s", st.Height, join(d, 8))
		}
	}
	// users never lose at block end
	for a, dm := range got {
		if !m.UserSet[a] {
			continue
		}
		for d, v := range dm {
			if v.IsNegative() {
				m.v("C16", "user-loses-at-end", "%s lost %s%s at block end", a, v, d)
			}
		}
	}
	m.liquidity(st, pre, post, swap)
	m.matchEvents(st, m.wantEndEvents(st, pre, post, fills))
}

type poolEv struct {
	paid, recv sdk.Coin
	amt        sm.Int
	dir, pair  string
	n          int
}

func evAttrs(st *Step, typ string) []map[string]string {
	var out []map[string]string
	for _, e := range st.Events {
		if e.Type != typ {
			continue
		}
		m := map[string]string{}
		for _, a := range e.Attributes {
			m[a.Key] = a.Value
		}
		out = append(out, m)
	}
	return out
}

func poolMatchEvents(st *Step) map[uint64]*poolEv {
	out := map[uint64]*poolEv{}
	for _, a := range evAttrs(st, types.EventTypePoolOrderMatched) {
		var id uint64
		fmt.Sscan(a[types.AttributeKeyPoolId], &id)
		paid, e1 := sdk.ParseCoinNormalized(a[types.AttributeKeyPaidCoin])
		recv, e2 := sdk.ParseCoinNormalized(a[types.AttributeKeyReceivedCoin])
		amt, _ := sm.NewIntFromString(a[types.AttributeKeyMatchedAmount])
		if e1 != nil || e2 != nil {
			continue
		}
		if o, ok := out[id]; ok {
			o.n++
			continue
		}
		out[id] = &poolEv{paid, recv, amt, a[types.AttributeKeyOrderDirection], a[types.AttributeKeyPairId], 1}
	}
	return out
}

// matchPair judges the outcome of one pair's batch.
func (m *DexMon) matchPair(st *Step, pre, post *Snap, id uint64, fs []fill, swap Delta, evs map[uint64]*poolEv, dust, want Delta) {
	pair, qp := pre.Pairs[id], post.Pairs[id]
	base, quote := pair.BaseCoinDenom, pair.QuoteCoinDenom
	bought, sold := sm.ZeroInt(), sm.ZeroInt()
	qPaid, qRecv := sm.ZeroInt(), sm.ZeroInt()
	nfill := int64(0)
	for _, f := range fs {
		nfill++
		if f.pre.Direction == types.OrderDirectionBuy {
			bought = bought.Add(f.received)
			qPaid = qPaid.Add(f.paid)
			if !f.received.Equal(f.amt) {
				m.v("C03", "buy-amount", "buy order %v matched %s but received %s", f.k, f.amt, f.received)
			}
		} else {
			sold = sold.Add(f.paid)
			qRecv = qRecv.Add(f.received)
			if !f.paid.Equal(f.amt) {
				m.v("C03", "sell-amount", "sell order %v matched %s but paid %s", f.k, f.amt, f.paid)
			}
		}
	}
	ticks := map[string]bool{}
	live := int64(0)
	for k, o := range pre.Ord {
		if k[0] == id && ordLive(o.Status) {
			ticks[o.Price.String()] = true
			live++
		}
	}
	// No matching step leaves both of its price levels untouched, so the number
	// of steps, hence of fills of one order, is bounded by that of levels.
	levels := int64(len(ticks)) + 4
	quotes := map[uint64]int64{}
	for _, pid := range pre.PoolIDs() {
		if p := pre.Pools[pid]; p.PairId == id && !(swap.Get(p.ReserveAddress, quote).IsZero() && swap.Get(p.ReserveAddress, base).IsZero()) {
			quotes[pid] = poolQuoteCount(pre, pair, p)
			levels += quotes[pid]
		}
	}
	poolTicks := int64(0)
	anyPool := false
	for _, pid := range pre.PoolIDs() {
		p := pre.Pools[pid]
		if p.PairId != id {
			continue
		}
		dx, dy := swap.Get(p.ReserveAddress, quote), swap.Get(p.ReserveAddress, base)
		ev := evs[pid]
		if dx.IsZero() && dy.IsZero() {
			if ev != nil {
				m.v("C24", "pool-event", "pool %d reports a trade %v but its reserves did not move", pid, *ev)
			}
			continue
		}
		anyPool = true
		m.R.Count("pool_swaps", 1)
		nt := m.poolSwap(st, pre, post, pair, p, dx, dy, quotes[pid], levels)
		poolTicks += nt
		nfill += nt
		if ev == nil {
			m.v("C24", "pool-event", "pool %d reserves moved by %s/%s without a reported trade", pid, dx, dy)
		} else {
			exp := Delta{}
			exp.Add("p", ev.paid.Denom, ev.paid.Amount.Neg())
			exp.Add("p", ev.recv.Denom, ev.recv.Amount)
			if !exp.Get("p", quote).Equal(dx) || !exp.Get("p", base).Equal(dy) || ev.n != 1 {
				m.v("C24", "pool-event", "pool %d reports paid %s received %s (%d reports) but its reserves moved by %s%s/%s%s", pid, ev.paid, ev.recv, ev.n, dx, quote, dy, base)
			}
			dir := types.OrderDirectionSell
			if dy.IsPositive() {
				dir = types.OrderDirectionBuy
			}
			if ev.amt.IsNil() || !ev.amt.Equal(dy.Abs()) || ev.dir != dir.String() || ev.pair != u64s(id) {
				m.v("C24", "pool-event", "pool %d of pair %d reports a %s of %v in pair %s but its base reserve moved by %s", pid, id, ev.dir, ev.amt, ev.pair, dy)
			}
		}
		if dy.IsPositive() {
			bought = bought.Add(dy)
			qPaid = qPaid.Sub(dx)
		} else {
			sold = sold.Sub(dy)
			qRecv = qRecv.Add(dx)
		}
		want.Add(p.ReserveAddress, quote, dx)
		want.Add(p.ReserveAddress, base, dy)
		want.Add(pair.EscrowAddress, quote, dx.Neg())
		want.Add(pair.EscrowAddress, base, dy.Neg())
	}
	matched := len(fs) > 0 || anyPool
	if !bought.Equal(sold) {
		m.v("C01", "base-imbalance", "pair %d batch: %s bought but %s sold", id, bought, sold)
		m.v("C02", "base-imbalance", "pair %d batch: %s bought but %s sold", id, bought, sold)
		m.v("C12", "base-imbalance", "pair %d batch: %s bought but %s sold", id, bought, sold)
	}
	d := qPaid.Sub(qRecv)
	dust.Add(pre.Params.DustCollectorAddress, quote, d)
	want.Add(pre.Params.DustCollectorAddress, quote, d)
	want.Add(pair.EscrowAddress, quote, d.Neg())
	if d.IsNegative() {
		m.v("C21", "negative-dust", "pair %d: sellers received %s more than buyers paid", id, d.Neg())
	}
	if matched {
		m.R.Count("matched_batches", 1)
		m.nontriv++
		slack := sm.NewInt(max(8*(nfill+4), (live+poolTicks)*levels))
		if d.GT(slack) {
			m.v("C21", "dust-large", "pair %d: %s quote coins were withheld as rounding surplus in a batch of at most %d fills", id, d, nfill)
		}
		if qp.LastPrice == nil {
			m.v("C18", "no-last-price", "pair %d matched but has no last price", id)
		} else {
			prec := int(pre.Params.TickPrecision)
			// orders keep the prices of a finer grid that was once in force
			if !refIsTick(*qp.LastPrice, m.finest) {
				m.v("C18", "last-price-off-grid", "pair %d last price %s is off grid", id, qp.LastPrice)
			}
			// a change of the grid moves the band; and orders worth nothing at the
			// first price, which has no band, stay in the book beyond the next one
			if pair.LastPrice != nil && !m.regrid {
				lo, hi := refBand(*pair.LastPrice, m.MaxRatio, prec)
				lo = sm.LegacyMinDec(lo, *pair.LastPrice)
				hi = sm.LegacyMaxDec(hi, *pair.LastPrice)
				for _, o := range pre.Ord {
					if o.PairId == id && ordLive(o.Status) && o.Status != types.OrderStatusNotExecuted {
						if o.Direction == types.OrderDirectionBuy && o.Price.GT(hi) {
							hi = o.Price
						} else if o.Direction == types.OrderDirectionSell && o.Price.LT(lo) {
							lo = o.Price
						}
					}
				}
				m.R.Count("price_moves_judged", 1)
				if qp.LastPrice.LT(lo) || qp.LastPrice.GT(hi) {
					m.v("C18", "price-jump", "pair %d price went from %s to %s, outside the band [%s,%s]", id, pair.LastPrice, qp.LastPrice, lo, hi)
				}
			}
		}
	} else if !decPEq(pair.LastPrice, qp.LastPrice) {
		m.v("C18", "last-price-without-trade", "pair %d last price changed to %v without a trade", id, qp.LastPrice)
	}
	// limit prices: every fill rounds against the order by less than one unit
	fillCap := sm.NewInt(int64(len(ticks)) + 2 + poolTicks)
	for _, f := range fs {
		lim := f.pre.Price
		if f.pre.Direction == types.OrderDirectionBuy {
			max := refCeilMul(lim, f.amt)
			if f.paid.GT(max.Add(fillCap)) {
				m.v("C03", "limit-violated", "buy order %v limit %s paid %s for %s", f.k, lim, f.paid, f.amt)
			}
			if !f.paid.IsPositive() {
				m.v("C03", "free-lunch", "buy order %v got %s for nothing", f.k, f.amt)
			}
		} else {
			min := refCeilMul(lim, f.amt).SubRaw(1)
			if f.received.LT(min.Sub(fillCap)) {
				m.v("C03", "limit-violated", "sell order %v limit %s received %s for %s", f.k, lim, f.received, f.amt)
			}
			if !f.received.IsPositive() {
				m.v("C03", "sold-for-nothing", "sell order %v gave %s for nothing", f.k, f.amt)
			}
		}
		if pl, ok := m.Placed[f.k]; ok {
			if m.LifePaid[f.k].GT(pl.OfferCoin.Amount) {
				m.v("C03", "overspent", "order %v spent %s of an offer of %s", f.k, m.LifePaid[f.k], pl.OfferCoin)
			}
			if f.pre.Direction == types.OrderDirectionBuy && m.LifeRecv[f.k].GT(pl.Amount) {
				m.v("C03", "overfilled", "buy order %v received %s of %s", f.k, m.LifeRecv[f.k], pl.Amount)
			}
			if !f.post.ReceivedCoin.Amount.Equal(m.LifeRecv[f.k]) || !f.post.RemainingOfferCoin.Amount.Equal(pl.OfferCoin.Amount.Sub(m.LifePaid[f.k])) {
				m.v("C06", "lifetime-books", "order %v record %v disagrees with its fills", f.k, f.post)
			}
		}
	}
	m.bookQuality(st, pre, post, id, fs, poolTicks, anyPool)
	m.refCompare(st, pre, post, id, fs, swap)
}

func refCeilMul(p sm.LegacyDec, a sm.Int) sm.Int { return refOffer(true, p, a) }

// poolQuoteCount bounds the number of price levels a pool quotes at.
func poolQuoteCount(pre *Snap, pair types.Pair, p types.Pool) (n int64) {
	n = 4
	defer func() { _ = recover() }()
	if pair.LastPrice != nil {
		ap := p.AMMPool(pre.B(p.ReserveAddress, pair.QuoteCoinDenom), pre.B(p.ReserveAddress, pair.BaseCoinDenom), pre.Supply(p.PoolCoinDenom))
		prec := int(pre.Params.TickPrecision)
		lo, hi := refBand(*pair.LastPrice, pre.Params.MaxPriceLimitRatio, prec)
		n += int64(len(amm.PoolOrders(ap, amm.DefaultOrderer, lo, hi, prec)))
	}
	return
}

// poolSwap: a pool never trades on the losing side of its own curve.
// Returns an upper bound of the number of fills of the pool's quotes.
func (m *DexMon) poolSwap(st *Step, pre, post *Snap, pair types.Pair, p types.Pool, dx, dy sm.Int, nq, levels int64) int64 {
	rx, ry := pre.B(p.ReserveAddress, pair.QuoteCoinDenom), pre.B(p.ReserveAddress, pair.BaseCoinDenom)
	if p.Disabled {
		m.v("C04", "closed-pool-traded", "closed pool %d traded %s/%s", p.Id, dx, dy)
		return 4
	}
	x2, y2 := rx.Add(dx), ry.Add(dy)
	if x2.IsNegative() || y2.IsNegative() {
		m.v("C04", "reserve-negative", "pool %d reserves %s/%s after trading", p.Id, x2, y2)
		return 4
	}
	if dx.IsNegative() && dy.IsNegative() || !dx.IsPositive() && !dy.IsPositive() {
		m.v("C04", "gave-for-nothing", "pool %d gave %s/%s for nothing", p.Id, dx, dy)
		return 4
	}
	if dx.IsPositive() && dy.IsPositive() {
		m.v("C04", "got-for-nothing", "pool %d gained on both sides %s/%s", p.Id, dx, dy)
		return 4
	}
	var tx, ty sm.LegacyDec
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				ok = false
			}
		}()
		tx, ty = sm.LegacyZeroDec(), sm.LegacyZeroDec()
		if p.Type == types.PoolTypeRanged {
			tx, ty = amm.DeriveTranslation(rx, ry, *p.MinPrice, *p.MaxPrice)
		}
		return true
	}()
	if !ok {
		return nq
	}
	slack := nq*4 + levels
	// price side: compare with the marginal price of the reserves before the batch
	X, Y := addDec(rx, tx), addDec(ry, ty)
	X2, Y2 := addDec(x2, tx), addDec(y2, ty)
	// paid*Y <= X*recv (+slack units of quote)
	one := new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)
	if dy.IsPositive() { // bought base, paid -dx quote: avg price <= X/Y
		paid := new(big.Int).Mul(new(big.Int).Sub(new(big.Int).Neg(dx.BigInt()), big.NewInt(slack)), one)
		l := new(big.Int).Mul(paid, Y)
		r := new(big.Int).Mul(X, new(big.Int).Mul(dy.BigInt(), one))
		r = relUp(r)
		if l.Cmp(r) > 0 {
			m.v("C04", "bought-above-price", "pool %d (type %s, reserves %s/%s) paid %s quote for %s base, above its own price", p.Id, p.Type, rx, ry, dx.Neg(), dy)
		}
	} else { // sold -dy base for dx quote: avg price >= X/Y
		got := new(big.Int).Mul(new(big.Int).Add(dx.BigInt(), big.NewInt(slack)), one)
		l := relUp(new(big.Int).Mul(got, Y))
		r := new(big.Int).Mul(X, new(big.Int).Mul(new(big.Int).Neg(dy.BigInt()), one))
		if l.Cmp(r) < 0 {
			m.v("C04", "sold-below-price", "pool %d (type %s, reserves %s/%s) got %s quote for %s base, below its own price", p.Id, p.Type, rx, ry, dx, dy.Neg())
		}
	}
	// curve: (X'+slack)(Y') >= X*Y
	k0 := new(big.Int).Mul(X, Y)
	k1 := new(big.Int).Mul(new(big.Int).Add(X2, new(big.Int).Mul(big.NewInt(slack), one)), Y2)
	if relUp(k1).Cmp(k0) < 0 {
		m.v("C04", "curve", "pool %d (type %s) liquidity invariant fell: reserves %s/%s -> %s/%s (allowance %d units)", p.Id, p.Type, rx, ry, x2, y2, slack)
	}
	if p.Type == types.PoolTypeRanged {
		// average price within the range
		if dy.IsPositive() {
			if sm.LegacyNewDecFromInt(dx.Neg().SubRaw(slack)).GT(p.MaxPrice.MulInt(dy)) {
				m.v("C04", "outside-range", "ranged pool %d paid %s for %s, above its max price %s", p.Id, dx.Neg(), dy, p.MaxPrice)
			}
		} else if sm.LegacyNewDecFromInt(dx.AddRaw(slack)).LT(p.MinPrice.MulInt(dy.Neg())) {
			m.v("C04", "outside-range", "ranged pool %d got %s for %s, below its min price %s", p.Id, dx, dy.Neg(), p.MinPrice)
		}
	}
	return nq
}

// relUp adds a relative 1e-9 for the fixed-point square roots in the curve.
func relUp(v *big.Int) *big.Int {
	return new(big.Int).Add(v, new(big.Int).Quo(v, big.NewInt(1_000_000_000)))
}

func addDec(i sm.Int, d sm.LegacyDec) *big.Int {
	one := new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)
	return new(big.Int).Add(new(big.Int).Mul(i.BigInt(), one), d.BigInt())
}

// ---- deposits and withdrawals -------------------------------------------------

func ratLE(a, b *big.Rat) bool { return a.Cmp(b) <= 0 }

func ri(i sm.Int) *big.Rat { return new(big.Rat).SetInt(i.BigInt()) }

func (m *DexMon) liquidity(st *Step, pre, post *Snap, swap Delta) {
	type ps struct{ x, y, s sm.Int }
	cur := map[uint64]*ps{}
	closed := map[uint64]bool{}
	for _, id := range pre.PoolIDs() {
		p := pre.Pools[id]
		pair := pre.Pairs[p.PairId]
		cur[id] = &ps{pre.B(p.ReserveAddress, pair.QuoteCoinDenom).Add(swap.Get(p.ReserveAddress, pair.QuoteCoinDenom)),
			pre.B(p.ReserveAddress, pair.BaseCoinDenom).Add(swap.Get(p.ReserveAddress, pair.BaseCoinDenom)), pre.Supply(p.PoolCoinDenom)}
		// a pool found empty at matching (before trading) is closed
		closed[id] = p.Disabled
	}
	depleted := func(p types.Pool, c *ps) bool {
		if p.Type == types.PoolTypeBasic {
			return c.s.IsZero() || c.x.IsZero() || c.y.IsZero()
		}
		return c.s.IsZero() || (c.x.IsZero() && c.y.IsZero())
	}
	for _, id := range pre.PoolIDs() {
		p := pre.Pools[id]
		pair := pre.Pairs[p.PairId]
		c := &ps{pre.B(p.ReserveAddress, pair.QuoteCoinDenom), pre.B(p.ReserveAddress, pair.BaseCoinDenom), pre.Supply(p.PoolCoinDenom)}
		if depleted(p, c) {
			closed[id] = true
		}
	}
	eps := big.NewRat(1, 1_000_000_000_000_000_000)
	one := big.NewRat(1, 1)
	for _, k := range sortedID2(pre.Dep) {
		r := pre.Dep[k]
		if r.Status != types.RequestStatusNotExecuted {
			continue
		}
		q := post.Dep[k]
		p := pre.Pools[r.PoolId]
		pair := pre.Pairs[p.PairId]
		c := cur[p.Id]
		if c == nil {
			continue
		}
		if depleted(p, c) {
			closed[p.Id] = true
		}
		X, Y := r.DepositCoins.AmountOf(pair.QuoteCoinDenom), r.DepositCoins.AmountOf(pair.BaseCoinDenom)
		ok := q.Status == types.RequestStatusSucceeded
		if closed[p.Id] {
			if ok {
				m.v("C05", "deposit-into-closed", "deposit %v into closed pool succeeded", k)
			}
			continue
		}
		// exact share: S * min(X/x, Y/y)
		var frac *big.Rat
		switch {
		case c.x.IsZero():
			frac = new(big.Rat).Quo(ri(Y), ri(c.y))
		case c.y.IsZero():
			frac = new(big.Rat).Quo(ri(X), ri(c.x))
		default:
			a, b := new(big.Rat).Quo(ri(X), ri(c.x)), new(big.Rat).Quo(ri(Y), ri(c.y))
			frac = a
			if b.Cmp(a) < 0 {
				frac = b
			}
		}
		exact := new(big.Rat).Mul(ri(c.s), frac)
		// the fixed-point fraction may be short by 1e-18 of the supply
		low := new(big.Rat).Sub(exact, new(big.Rat).Mul(ri(c.s), eps))
		low.Sub(low, one)
		if !ok {
			if low.Cmp(one) >= 0 {
				m.v("C05", "deposit-refused", "deposit %v of %s into pool with %s/%s and %s shares is worth %s shares but failed", k, r.DepositCoins, c.x, c.y, c.s, exact.FloatString(3))
			}
			continue
		}
		pc := q.MintedPoolCoin.Amount
		ax, ay := q.AcceptedCoins.AmountOf(pair.QuoteCoinDenom), q.AcceptedCoins.AmountOf(pair.BaseCoinDenom)
		m.R.Count("deposits_judged", 1)
		if !pc.IsPositive() {
			m.v("C05", "deposit-for-nothing", "deposit %v accepted %s and minted nothing", k, q.AcceptedCoins)
		}
		if ri(pc).Cmp(exact) > 0 {
			m.v("C05", "overminted", "deposit %v of %s into pool with %s/%s and %s shares minted %s, at most %s is fair", k, r.DepositCoins, c.x, c.y, c.s, pc, exact.FloatString(3))
		}
		if ri(pc).Cmp(low) < 0 {
			m.v("C05", "underminted", "deposit %v of %s into pool with %s/%s and %s shares minted only %s of %s", k, r.DepositCoins, c.x, c.y, c.s, pc, exact.FloatString(3))
		}
		for i, t := range []struct{ a, res, off sm.Int }{{ax, c.x, X}, {ay, c.y, Y}} {
			if t.a.GT(t.off) {
				m.v("C05", "deposit-overcharge", "deposit %v took %s of side %d, offered %s", k, t.a, i, t.off)
			}
			// no dilution: a >= res*pc/S - res*1e-18 ; no overcharge: a <= res*pc/S + 1 + res*1e-18
			fair := new(big.Rat).Quo(new(big.Rat).Mul(ri(t.res), ri(pc)), ri(c.s))
			tol := new(big.Rat).Mul(ri(t.res), eps)
			if ri(t.a).Cmp(new(big.Rat).Sub(fair, tol)) < 0 {
				m.v("C05", "dilution", "deposit %v got %s of %s shares for %s of side %d, holders' stake requires %s", k, pc, c.s, t.a, i, fair.FloatString(3))
			}
			hi := new(big.Rat).Add(fair, tol)
			hi.Add(hi, one)
			if ri(t.a).Cmp(hi) > 0 {
				m.v("C05", "deposit-overpaid", "deposit %v paid %s of side %d for %s of %s shares, fair price %s", k, t.a, i, pc, c.s, fair.FloatString(3))
			}
		}
		c.x, c.y, c.s = c.x.Add(ax), c.y.Add(ay), c.s.Add(pc)
	}
	for _, k := range sortedID2(pre.Wd) {
		r := pre.Wd[k]
		if r.Status != types.RequestStatusNotExecuted {
			continue
		}
		q := post.Wd[k]
		p := pre.Pools[r.PoolId]
		pair := pre.Pairs[p.PairId]
		c := cur[p.Id]
		if c == nil {
			continue
		}
		if depleted(p, c) {
			closed[p.Id] = true
		}
		ok := q.Status == types.RequestStatusSucceeded
		if closed[p.Id] {
			if ok {
				m.v("C05", "withdraw-from-closed", "withdrawal %v from closed pool succeeded", k)
			}
			continue
		}
		pc := r.PoolCoin.Amount
		last := pc.Equal(c.s)
		keep := new(big.Rat).Sub(one, new(big.Rat).SetFrac(pre.Params.WithdrawFeeRate.BigInt(), new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)))
		wx, wy := q.WithdrawnCoins.AmountOf(pair.QuoteCoinDenom), q.WithdrawnCoins.AmountOf(pair.BaseCoinDenom)
		worth := false
		for i, t := range []struct{ w, res sm.Int }{{wx, c.x}, {wy, c.y}} {
			fair := new(big.Rat).Quo(new(big.Rat).Mul(ri(t.res), ri(pc)), ri(c.s))
			if !last {
				fair.Mul(fair, keep)
			}
			low := new(big.Rat).Sub(fair, new(big.Rat).Mul(ri(t.res), big.NewRat(2, 1_000_000_000_000_000_000)))
			low.Sub(low, big.NewRat(1, 1))
			low.Sub(low, eps)
			if ok {
				if last && !t.w.Equal(t.res) {
					m.v("C05", "last-withdrawal", "last withdrawal %v left %s of side %d behind", k, t.res.Sub(t.w), i)
				}
				if ri(t.w).Cmp(fair) > 0 {
					m.v("C05", "over-withdrawal", "withdrawal %v of %s of %s shares took %s of side %d, fair %s", k, pc, c.s, t.w, i, fair.FloatString(3))
				}
				if ri(t.w).Cmp(low) < 0 {
					m.v("C05", "under-withdrawal", "withdrawal %v of %s of %s shares got only %s of side %d, fair %s", k, pc, c.s, t.w, i, fair.FloatString(3))
				}
			}
			if low.Cmp(one) >= 0 {
				worth = true
			}
		}
		if !ok {
			if worth {
				m.v("C05", "withdraw-refused", "withdrawal %v of %s of %s shares from %s/%s failed", k, pc, c.s, c.x, c.y)
			}
			continue
		}
		m.R.Count("withdrawals_judged", 1)
		if wx.IsZero() && wy.IsZero() {
			m.v("C05", "withdraw-for-nothing", "withdrawal %v burned %s for nothing", k, pc)
		}
		c.x, c.y, c.s = c.x.Sub(wx), c.y.Sub(wy), c.s.Sub(pc)
		if last {
			closed[p.Id] = true
			if !post.Pools[p.Id].Disabled {
				m.v("C05", "emptied-pool-open", "pool %d stays open after its last share was redeemed", p.Id)
			}
			m.R.Count("pools_emptied", 1)
		}
	}
	for _, id := range pre.PoolIDs() {
		p, q := pre.Pools[id], post.Pools[id]
		if q.Disabled != (closed[id] || p.Disabled) {
			m.v("C05", "pool-flag", "pool %d closed=%v, expected %v", id, q.Disabled, closed[id])
		}
		c := cur[id]
		pair := pre.Pairs[p.PairId]
		if !c.x.Equal(post.B(p.ReserveAddress, pair.QuoteCoinDenom)) || !c.y.Equal(post.B(p.ReserveAddress, pair.BaseCoinDenom)) || !c.s.Equal(post.Supply(p.PoolCoinDenom)) {
			m.v("C05", "pool-books", "pool %d ends with %s/%s and %s shares, the recorded requests imply %s/%s and %s", id,
				post.B(p.ReserveAddress, pair.QuoteCoinDenom), post.B(p.ReserveAddress, pair.BaseCoinDenom), post.Supply(p.PoolCoinDenom), c.x, c.y, c.s)
		}
	}
}

// bookQuality: nothing that should have traded was left behind (state level).
func (m *DexMon) bookQuality(st *Step, pre, post *Snap, id uint64, fs []fill, poolTicks int64, anyPool bool) {
	// C12: within a price level of one side, an order from an earlier batch is
	// served before one from a later batch; a better price before a worse one.
	type row struct {
		k     ID2
		o     types.Order
		post  types.Order
		fill  sm.Int
		avail sm.Int
	}
	fm := map[ID2]fill{}
	for _, f := range fs {
		fm[f.k] = f
	}
	var buys, sells []row
	for _, k := range sortedID2(pre.Ord) {
		o := pre.Ord[k]
		if k[0] != id || !ordLive(o.Status) {
			continue
		}
		if o.Status != types.OrderStatusNotExecuted && !o.ExpireAt.After(st.Time) {
			continue // expires before matching
		}
		r := row{k: k, o: o, post: post.Ord[k], fill: sm.ZeroInt()}
		if f, ok := fm[k]; ok {
			r.fill = f.amt
		}
		r.avail = o.OpenAmount
		if o.Direction == types.OrderDirectionBuy {
			buys = append(buys, r)
		} else {
			sells = append(sells, r)
		}
	}
	sort.SliceStable(buys, func(i, j int) bool { return buys[i].o.Price.GT(buys[j].o.Price) })
	sort.SliceStable(sells, func(i, j int) bool { return sells[i].o.Price.LT(sells[j].o.Price) })
	// the lowest price at which this batch traded
	low := sm.LegacyMaxSortableDec
	for _, q := range []types.Pair{pre.Pairs[id], post.Pairs[id]} {
		if q.LastPrice != nil {
			low = sm.LegacyMinDec(low, *q.LastPrice)
		}
	}
	for _, side := range [][]row{buys, sells} {
		// is there still something considerable unfilled at a strictly better
		// price (or same price, earlier batch) than some filled order?
		for i, b := range side {
			if !b.fill.IsPositive() {
				continue
			}
			for j, a := range side {
				if i == j {
					continue
				}
				better := a.o.Price.GT(b.o.Price)
				if a.o.Direction == types.OrderDirectionSell {
					better = a.o.Price.LT(b.o.Price)
				}
				older := a.o.Price.Equal(b.o.Price) && a.o.BatchId < b.o.BatchId
				if !better && !older {
					continue
				}
				// what is left of the preferred order (remaining value well above dust)
				left := a.post.OpenAmount
				if !left.IsPositive() {
					continue
				}
				// at any price at which both could trade
				if sm.LegacyMinDec(low, sm.LegacyMinDec(a.o.Price, b.o.Price)).MulInt(left).LT(sm.LegacyNewDec(4)) || left.LT(sm.NewInt(4)) {
					continue
				}
				// a buy order may be short of money for its last units because every fill rounds up
				if a.o.Direction == types.OrderDirectionBuy {
					afford := sm.LegacyNewDecFromInt(a.post.RemainingOfferCoin.Amount).Quo(a.o.Price).TruncateInt()
					if afford.LT(sm.NewInt(4)) || a.o.Price.MulInt(afford).LT(sm.LegacyNewDec(4)) {
						continue
					}
				}
				key := "price-priority"
				if older {
					key = "batch-priority"
				}
				m.v("C12", key, "pair %d height %d: order %v (%s at %s, batch %d) still has %s open while order %v (at %s, batch %d) was filled by %s", id, st.Height,
					a.k, a.o.Direction, a.o.Price, a.o.BatchId, left, b.k, b.o.Price, b.o.BatchId, b.fill)
			}
		}
	}
	// no considerable crossed remainder
	bestB, bestS := sm.LegacyDec{}, sm.LegacyDec{}
	var kb, ks ID2
	for _, b := range buys {
		p := post.Ord[b.k]
		if ordLive(p.Status) && p.OpenAmount.GTE(sm.NewInt(100)) && p.Price.MulInt(p.OpenAmount).GTE(sm.LegacyNewDec(100)) {
			afford := sm.LegacyNewDecFromInt(p.RemainingOfferCoin.Amount).Quo(p.Price)
			if afford.LT(sm.LegacyNewDec(100)) {
				continue
			}
			if bestB.IsNil() || p.Price.GT(bestB) {
				bestB, kb = p.Price, b.k
			}
		}
	}
	for _, b := range sells {
		p := post.Ord[b.k]
		if ordLive(p.Status) && p.OpenAmount.GTE(sm.NewInt(100)) && p.Price.MulInt(p.OpenAmount).GTE(sm.LegacyNewDec(100)) {
			if bestS.IsNil() || p.Price.LT(bestS) {
				bestS, ks = p.Price, b.k
			}
		}
	}
	if !bestB.IsNil() && !bestS.IsNil() {
		m.R.Count("two_sided_books", 1)
		// what the two could still trade is worth something even at the lowest price
		amt := sm.MinInt(post.Ord[kb].OpenAmount, post.Ord[ks].OpenAmount)
		worth := bfloor(sm.LegacyMinDec(low, bestS).BigInt(), amt.BigInt())
		// orders from a finer grid may cross where there is no price in between,
		// and at the price of a pool beyond any limit they may be worth nothing
		// (nor is there one below the lowest level of a new precision)
		prec := int(pre.Params.TickPrecision)
		onGrid := refDownTick(bestB, prec).GTE(bestS) && !(pre.Pairs[id].LastPrice == nil && bestB.LT(refLowestTick(prec)))
		if onGrid && !(post.Pairs[id].LastPrice == nil && hugePool(pre, id)) && worth.Cmp(big.NewInt(10)) >= 0 {
			m.v("C12", "crossed-book", "pair %d height %d: buy order %v at %s and sell order %v at %s both remain open after matching (%s/%s open, last price %v then %v%s)", id, st.Height, kb, bestB, ks, bestS,
				post.Ord[kb].OpenAmount, post.Ord[ks].OpenAmount, pre.Pairs[id].LastPrice, post.Pairs[id].LastPrice, describePools(pre, id))
		}
	}
}

// refParamsInvalid states which parameter sets must never be accepted.
func refParamsInvalid(p types.Params) string {
	one := sm.LegacyOneDec()
	switch {
	case p.BatchSize == 0:
		return "batch size is zero"
	case p.WithdrawFeeRate.IsNil() || p.WithdrawFeeRate.IsNegative() || p.WithdrawFeeRate.GT(one):
		return "withdraw fee rate is outside [0,1]"
	case p.SwapFeeRate.IsNil() || p.SwapFeeRate.IsNegative() || p.SwapFeeRate.GT(one):
		return "swap fee rate is outside [0,1]"
	case p.MaxPriceLimitRatio.IsNil() || p.MaxPriceLimitRatio.IsNegative() || p.MaxPriceLimitRatio.GTE(one):
		return "max price limit ratio is outside [0,1)"
	case p.TickPrecision > 16:
		return "tick precision exceeds what tick indexes can represent"
	case p.MinInitialPoolCoinSupply.IsNil() || !p.MinInitialPoolCoinSupply.IsPositive():
		return "min initial pool coin supply is not positive"
	case p.MinInitialDepositAmount.IsNil() || p.MinInitialDepositAmount.IsNegative():
		return "min initial deposit is negative"
	case p.MaxOrderLifespan < 0:
		return "max order lifespan is negative"
	case p.MaxNumMarketMakingOrdersPerPair == 0:
		return "market-making cap is zero"
	case p.MaxNumMarketMakingOrderTicks == 0:
		return "market-making tick cap is zero"
	}
	if p.PairCreationFee.Validate() != nil || p.PoolCreationFee.Validate() != nil {
		return "a creation fee is malformed"
	}
	for _, a := range []string{p.FeeCollectorAddress, p.DustCollectorAddress} {
		if _, err := sdk.AccAddressFromBech32(a); err != nil {
			return "a collector address is malformed"
		}
	}
	return ""
}

// hugePool reports whether an active pool of the pair holds reserves beyond
// what deposits allow.
func describePools(s *Snap, pair uint64) (d string) {
	q := s.Pairs[pair]
	for _, p := range s.Pools {
		if p.PairId == pair && !p.Disabled {
			d += fmt.Sprintf(", pool %d %v..%v has %s and %s", p.Id, p.MinPrice, p.MaxPrice, s.B(p.ReserveAddress, q.QuoteCoinDenom), s.B(p.ReserveAddress, q.BaseCoinDenom))
		}
	}
	return
}

func hugePool(s *Snap, pair uint64) bool {
	for _, p := range s.Pools {
		if p.PairId != pair || p.Disabled {
			continue
		}
		q := s.Pairs[pair]
		if !plain(s.B(p.ReserveAddress, q.QuoteCoinDenom)) || !plain(s.B(p.ReserveAddress, q.BaseCoinDenom)) {
			return true
		}
	}
	return false
}

// concernedTx names the properties that a wrong movement of coins by the
// message breaks besides conservation.
func (m *DexMon) concernedTx(msg sdk.Msg) []string {
	switch msg.(type) {
	case *types.MsgCancelOrder, *types.MsgCancelAllOrders:
		return []string{"C06"}
	case *types.MsgCreatePair:
		return []string{"C21"}
	case *types.MsgCreatePool, *types.MsgCreateRangedPool:
		return []string{"C05", "C21"}
	case *types.MsgDeposit, *types.MsgWithdraw:
		return []string{"C05"}
	case *types.MsgLimitOrder, *types.MsgMMOrder, *types.MsgMarketOrder:
		return []string{"C18"}
	}
	return nil
}

// concernedEnd names the properties that wrong movements of coins at a block
// end break besides conservation, judged by whose balances are wrong.
func (m *DexMon) concernedEnd(pre, post *Snap, got, want Delta) []string {
	wrong := map[string]bool{}
	for _, src := range []Delta{got, want} {
		for a, dm := range src {
			for d := range dm {
				if !got.Get(a, d).Equal(want.Get(a, d)) {
					wrong[a] = true
				}
			}
		}
	}
	out := map[string]bool{}
	for _, r := range pre.Dep {
		if r.Status == types.RequestStatusNotExecuted && wrong[r.Depositor] {
			out["C06"], out["C05"] = true, true
		}
	}
	for _, r := range pre.Wd {
		if r.Status == types.RequestStatusNotExecuted && wrong[r.Withdrawer] {
			out["C06"], out["C05"] = true, true
		}
	}
	for k, o := range pre.Ord {
		p := post.Ord[k]
		if !wrong[o.Orderer] {
			continue
		}
		if p.Status != o.Status && !ordLive(p.Status) {
			out["C06"] = true
		}
		if !p.OpenAmount.IsNil() && !p.OpenAmount.Equal(o.OpenAmount) {
			out["C03"] = true
		}
	}
	for a := range m.Res {
		if wrong[a] {
			out["C04"] = true
		}
	}
	return sortedKeys(out)
}
