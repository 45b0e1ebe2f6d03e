package main

// C27: whatever is asked, simulated or checked, nothing changes.

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math"
	"math/rand"
	"strings"

	storetypes "cosmossdk.io/store/types"
	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	txtypes "github.com/cosmos/cosmos-sdk/types/tx"
	"github.com/cosmos/gogoproto/proto"

	"defund/app"
	"defund/x/dex/types"
)

// rawDigest hashes every entry of every module store as seen by a context.
func rawDigest(a *app.App, ctx sdk.Context) map[string]string {
	out := map[string]string{}
	for _, k := range a.GetStoreKeys() {
		kv, ok := k.(*storetypes.KVStoreKey)
		if !ok {
			continue
		}
		h := sha256.New()
		it := ctx.KVStore(kv).Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			fmt.Fprintf(h, "%d %d|", len(it.Key()), len(it.Value()))
			h.Write(it.Key())
			h.Write(it.Value())
		}
		it.Close()
		out[kv.Name()] = hex.EncodeToString(h.Sum(nil)[:8])
	}
	return out
}

func digestDiff(a, b map[string]string) (out []string) {
	for _, k := range sortedKeys(a) {
		if a[k] != b[k] {
			out = append(out, k)
		}
	}
	return
}

func weirdString(r *rand.Rand) string {
	switch r.Intn(10) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("a", 1+r.Intn(5000))
	case 2:
		return "defund1"
	case 3:
		return userAddr(r.Intn(5)).String()
	case 4:
		return "cosmos1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqnrql8a"
	case 5:
		return "pool" + fmt.Sprint(r.Uint64()>>uint(r.Intn(64)))
	case 6:
		return scenarioDenoms[r.Intn(len(scenarioDenoms))]
	case 7:
		return types.PoolReserveAddress(uint64(r.Intn(4))).String()
	case 8:
		return "\x00\xff/../%s%n\n"
	default:
		b := make([]byte, r.Intn(40))
		r.Read(b)
		return strings.ToValidUTF8(string(b), "x")
	}
}

func weirdU64(r *rand.Rand) uint64 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return math.MaxUint64 - uint64(r.Intn(3))
	case 2:
		return 1 << uint(r.Intn(64))
	case 3:
		return r.Uint64()
	default:
		return uint64(r.Intn(6))
	}
}

func weirdPage(r *rand.Rand) *query.PageRequest {
	if r.Intn(4) == 0 {
		return nil
	}
	p := &query.PageRequest{Reverse: r.Intn(2) == 0, CountTotal: r.Intn(2) == 0}
	if r.Intn(2) == 0 {
		p.Offset = weirdU64(r)
	}
	if r.Intn(3) > 0 {
		p.Limit = weirdU64(r)
	}
	if r.Intn(2) == 0 {
		p.Key = make([]byte, r.Intn(40))
		r.Read(p.Key)
	}
	return p
}

// hostileRequest is one question to the exchange which is seldom sensible.
func hostileRequest(r *rand.Rand, users []sdk.AccAddress) (string, proto.Message) {
	if r.Intn(5) == 0 {
		return randomQueryReq(r, users)
	}
	p := qPath
	u := func() uint64 { return weirdU64(r) }
	s := func() string { return weirdString(r) }
	switch r.Intn(15) {
	case 0:
		return p + "Pools", &types.QueryPoolsRequest{PairId: u(), Disabled: s(), Pagination: weirdPage(r)}
	case 1:
		return p + "Pool", &types.QueryPoolRequest{PoolId: u()}
	case 2:
		return p + "PoolByReserveAddress", &types.QueryPoolByReserveAddressRequest{ReserveAddress: s()}
	case 3:
		return p + "PoolByPoolCoinDenom", &types.QueryPoolByPoolCoinDenomRequest{PoolCoinDenom: s()}
	case 4:
		var ds []string
		for i := r.Intn(5); i > 0; i-- {
			ds = append(ds, s())
		}
		return p + "Pairs", &types.QueryPairsRequest{Denoms: ds, Pagination: weirdPage(r)}
	case 5:
		return p + "Pair", &types.QueryPairRequest{PairId: u()}
	case 6:
		return p + "DepositRequests", &types.QueryDepositRequestsRequest{PoolId: u(), Pagination: weirdPage(r)}
	case 7:
		return p + "DepositRequest", &types.QueryDepositRequestRequest{PoolId: u(), Id: u()}
	case 8:
		return p + "WithdrawRequests", &types.QueryWithdrawRequestsRequest{PoolId: u(), Pagination: weirdPage(r)}
	case 9:
		return p + "WithdrawRequest", &types.QueryWithdrawRequestRequest{PoolId: u(), Id: u()}
	case 10:
		return p + "Orders", &types.QueryOrdersRequest{PairId: u(), Pagination: weirdPage(r)}
	case 11:
		return p + "Order", &types.QueryOrderRequest{PairId: u(), Id: u()}
	case 12:
		return p + "OrdersByOrderer", &types.QueryOrdersByOrdererRequest{Orderer: s(), PairId: u(), Pagination: weirdPage(r)}
	case 13:
		return p + "NumMMOrders", &types.QueryNumMMOrdersRequest{Orderer: s(), PairId: u()}
	default:
		var ids []uint64
		for i := r.Intn(4); i >= 0; i-- {
			ids = append(ids, u())
		}
		if r.Intn(2) == 0 {
			ids = []uint64{1, 2, 3}[:1+r.Intn(3)]
		}
		var pw []uint32
		for i := r.Intn(4); i > 0; i-- {
			pw = append(pw, []uint32{0, 1, 2, 3, 8, 17, 18, 19, 30, 31, 59, 60, 100, 1 << 20, math.MaxUint32}[r.Intn(15)])
		}
		nt := []uint32{0, 1, 2, 20, 1000, 1 << 16, math.MaxUint32}[r.Intn(7)]
		return p + "OrderBooks", &types.QueryOrderBooksRequest{PairIds: ids, PriceUnitPowers: pw, NumTicks: nt}
	}
}

func mutate(r *rand.Rand, b []byte) []byte {
	out := append([]byte{}, b...)
	for k := 1 + r.Intn(4); k > 0; k-- {
		switch r.Intn(5) {
		case 0:
			if len(out) > 0 {
				out[r.Intn(len(out))] ^= byte(1 << r.Intn(8))
			}
		case 1:
			if len(out) > 0 {
				out = out[:r.Intn(len(out))]
			}
		case 2:
			i := r.Intn(len(out) + 1)
			ins := make([]byte, r.Intn(9))
			r.Read(ins)
			out = append(out[:i:i], append(ins, out[i:]...)...)
		case 3:
			if len(out) > 2 {
				i := r.Intn(len(out) - 1)
				out = append(out[:i:i], append(append([]byte{}, out[i:min(len(out), i+9)]...), out[i:]...)...)
			}
		case 4:
			if len(out) > 0 {
				out[r.Intn(len(out))] = []byte{0, 0xff, 0x7f, 0x80}[r.Intn(4)]
			}
		}
	}
	return out
}

// hostile bombards one node.
type hostile struct {
	r    *rand.Rand
	c    *Chain
	rep  *Reporter
	pool [][]byte // valid transactions
	bad  []string
	// more transactions, valid or not
	mk func() []byte
}

func (h *hostile) guard(what, detail string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			h.bad = append(h.bad, fmt.Sprintf("%s (%s) panicked out of the node: %v %s", what, clip(detail, 300), p, stackTop()))
		}
	}()
	f()
	h.rep.Count("hostile:"+what, 1)
}

var queryRoots = []string{"/app/version", "/app/simulate", "/app/snapshots", "/store/dex/key", "/store/dex/subspace", "/store/bank/key", "/store/nosuch/key",
	"/p2p/filter/addr/1.2.3.4:5", "/p2p/filter/id/abc", "/custom/dex/pools", "", "/", "//", "dex", "/defund.dex.Query/", "/defund.dex.Query/NoSuch",
	"/cosmos.bank.v1beta1.Query/AllBalances", "/cosmos.bank.v1beta1.Query/TotalSupply", "/cosmos.auth.v1beta1.Query/Accounts", "/cosmos.tx.v1beta1.Service/Simulate",
	"/cosmos.params.v1beta1.Query/Params", "/cosmos.upgrade.v1beta1.Query/CurrentPlan", "/cosmos.base.reflection.v1beta1.ReflectionService/ListAllInterfaces",
	"/defund.dex.Msg/UpdateParams", "/defund.dex.Msg/LimitOrder", "/defund.dex.Msg/CancelAllOrders"}

func (h *hostile) height() int64 {
	r := h.r
	switch r.Intn(8) {
	case 0:
		return -1 - int64(r.Intn(3))
	case 1:
		return math.MaxInt64 - int64(r.Intn(2))
	case 2:
		return h.c.Height + 1
	case 3:
		return max(0, h.c.Height-int64(r.Intn(5)))
	}
	return 0
}

func (h *hostile) once() {
	r, c := h.r, h.c
	tx := func() []byte {
		if h.mk != nil && r.Intn(2) == 0 {
			if b := h.mk(); b != nil {
				return b
			}
		}
		if len(h.pool) == 0 {
			return nil
		}
		return h.pool[r.Intn(len(h.pool))]
	}
	bad := func(b []byte) []byte {
		switch r.Intn(4) {
		case 0:
			g := make([]byte, r.Intn(200))
			r.Read(g)
			return g
		case 1:
			return b
		}
		return mutate(r, b)
	}
	switch r.Intn(8) {
	case 0, 1, 2: // sensible and hostile questions
		path, req := hostileRequest(r, c.Users)
		bz, err := proto.Marshal(req)
		if err != nil {
			return
		}
		if r.Intn(4) == 0 {
			bz = bad(bz)
		}
		hh := h.height()
		pr := r.Intn(8) == 0
		h.guard("query", fmt.Sprintf("%s %v height %d", path, req, hh), func() {
			res, err := c.App.Query(context.Background(), &abci.RequestQuery{Path: path, Data: bz, Height: hh, Prove: pr})
			if err == nil && res.Code == 111222 && res.Codespace == "sdk" {
				h.rep.Count("hostile:query-internal-error", 1)
			}
		})
	case 3: // other paths
		path := queryRoots[r.Intn(len(queryRoots))]
		if r.Intn(5) == 0 {
			path = string(mutate(r, []byte(path)))
		}
		d := bad(tx())
		if path == "/cosmos.tx.v1beta1.Service/Simulate" && r.Intn(2) == 0 {
			d, _ = proto.Marshal(&txtypes.SimulateRequest{TxBytes: d})
		}
		hh := h.height()
		h.guard("path", fmt.Sprintf("%q height %d", path, hh), func() {
			_, _ = c.App.Query(context.Background(), &abci.RequestQuery{Path: path, Data: d, Height: hh, Prove: r.Intn(2) == 0})
		})
	case 4, 5:
		b := tx()
		if r.Intn(3) == 0 {
			b = bad(b)
		}
		h.guard("simulate", fmt.Sprintf("%x", b), func() { _, _, _ = c.App.Simulate(b) })
	case 6, 7:
		b := tx()
		if r.Intn(3) == 0 {
			b = bad(b)
		}
		t := abci.CheckTxType_New
		if r.Intn(3) == 0 {
			t = abci.CheckTxType_Recheck
		}
		if r.Intn(12) == 0 {
			t = abci.CheckTxType(r.Int31())
		}
		h.guard("checktx", fmt.Sprintf("type %d %x", t, b), func() { _, _ = c.App.CheckTx(&abci.RequestCheckTx{Tx: b, Type: t}) })
	}
}

// c27Chain executes a history once quietly and once under bombardment.
func c27Chain(idx int, seed int64, tier string, rep *Reporter) {
	h := newHistory(seed, idx, dbm.NewMemDB())
	r := rand.New(rand.NewSource(subSeed(seed, "hostile")))
	for len(h.res) < 14 && h.next(rep) {
	}
	want := canons(h.res)
	c := openChain(dbm.NewMemDB())
	c.users(h.g.P.Users)
	if err := c.initPlan(h.plan); err != nil {
		panic(err)
	}
	b := &hostile{r: r, c: c, rep: rep}
	b.mk = func() []byte {
		s := c.Snap()
		g := &Gen{P: h.g.P, R: r, U: c.Users}
		var ms []sdk.Msg
		for k := 1 + r.Intn(3); k > 0; k-- {
			if m := g.Next(s); m != nil && c.keys[signerOf(m)] != nil {
				ms = append(ms, m)
			}
		}
		if len(ms) == 0 {
			return nil
		}
		bz, _ := c.BuildTx(ms, TxOpts{Gas: uint64(50_000 + r.Intn(3_000_000))})
		return bz
	}
	burst := func(where string, n int) bool {
		for k := 0; k < n; k++ {
			b.once()
		}
		for _, x := range b.bad {
			rep.Violate("C27", "panic", "height %d: %s", c.Height, x)
		}
		b.bad = nil
		return true
	}
	for i, pb := range h.plan.Blocks {
		b.pool = append(append([][]byte{}, pb.Txs...), h.plan.Blocks[min(i+1, len(h.plan.Blocks)-1)].Txs...)
		if c.Height >= 2 {
			var before map[string]string
			deep := r.Intn(3) == 0
			if deep {
				before = rawDigest(c.App, c.ReadCtx())
			}
			info0, _ := c.App.Info(&abci.RequestInfo{})
			burst("between blocks", 12)
			info1, _ := c.App.Info(&abci.RequestInfo{})
			if info0.LastBlockHeight != info1.LastBlockHeight || string(info0.LastBlockAppHash) != string(info1.LastBlockAppHash) {
				rep.Violate("C27", "committed-state", "height %d: after questions, simulations and checks the node reports height %d hash %x instead of %d %x", c.Height, info1.LastBlockHeight, info1.LastBlockAppHash, info0.LastBlockHeight, info0.LastBlockAppHash)
			}
			if deep {
				rep.Count("state_digests", 1)
				if d := digestDiff(before, rawDigest(c.App, c.ReadCtx())); len(d) > 0 {
					rep.Violate("C27", "committed-state", "height %d: questions, simulations and checks changed the stores %v", c.Height, d)
				}
			}
		}
		res, err := c.tryFinalize(pb)
		if err != nil {
			rep.Violate("C27", "later-blocks", "height %d: after questions, simulations and checks the block fails: %v", c.Height+1, clip(err.Error(), 400))
			return
		}
		if got := canon(res); got != want[i] {
			rep.Violate("C27", "later-blocks", "height %d: a node which served questions, simulations and checks ends the block differently: %s", c.Height+1, firstDiff(want[i], got))
			return
		}
		if c.Height >= 2 && r.Intn(2) == 0 {
			burst("before commit", 5)
		}
		if err := c.Commit(pb); err != nil {
			rep.Violate("C27", "later-blocks", "height %d: commit fails after questions: %v", c.Height+1, err)
			return
		}
		rep.Count("blocks_compared", 1)
	}
	rep.Case(h.digest(), h.trades() > 0, func() string { return joinLines(h.g.Trace, 12) })
}

// hostileMon asks the query service over the working state itself, where a
// write would stay.
type hostileMon struct {
	rep *Reporter
	r   *rand.Rand
	p   float64
}

func (m *hostileMon) Observe(w *World, st *Step, pre, post *Snap) {
	if w.Dead != "" || m.r.Float64() >= m.p {
		return
	}
	before := rawDigest(w.App, w.Ctx)
	gas0 := w.Ctx.GasMeter().GasConsumed()
	_ = gas0
	var asked []string
	ask := func(path string, bz []byte) {
		h := w.App.GRPCQueryRouter().Route(path)
		if h == nil {
			return
		}
		m.rep.Count("live_questions", 1)
		asked = append(asked, path[strings.LastIndexByte(path, '/')+1:])
		defer func() {
			if p := recover(); p != nil {
				// answered as an internal error by the query interface
				m.rep.Count("live_question_panics", 1)
				if m.rep.Counts["live_question_panics"] <= 5 {
					m.rep.Halts = append(m.rep.Halts, clip(fmt.Sprintf("query panic (recovered by the query interface): %s %x: %v", path, bz, p), 300))
				}
			}
		}()
		_, _ = h(w.Ctx, &abci.RequestQuery{Path: path, Data: bz})
	}
	for k := 0; k < 12; k++ {
		path, req := hostileRequest(m.r, w.Users)
		bz, err := proto.Marshal(req)
		if err != nil {
			continue
		}
		if m.r.Intn(6) == 0 {
			bz = mutate(m.r, bz)
		}
		ask(path, bz)
	}
	// and every query once with what exists
	for _, pid := range post.PairIDs() {
		for name, req := range map[string]proto.Message{
			"Pools": &types.QueryPoolsRequest{PairId: pid}, "Pair": &types.QueryPairRequest{PairId: pid}, "Orders": &types.QueryOrdersRequest{PairId: pid},
			"OrderBooks": &types.QueryOrderBooksRequest{PairIds: []uint64{pid}, NumTicks: 10}, "OrdersByOrderer": &types.QueryOrdersByOrdererRequest{Orderer: w.Users[0].String(), PairId: pid},
			"NumMMOrders": &types.QueryNumMMOrdersRequest{Orderer: w.Users[0].String(), PairId: pid}, "Pairs": &types.QueryPairsRequest{}} {
			bz, _ := proto.Marshal(req)
			ask(qPath+name, bz)
		}
	}
	for _, id := range post.PoolIDs() {
		for name, req := range map[string]proto.Message{
			"Pool": &types.QueryPoolRequest{PoolId: id}, "PoolByReserveAddress": &types.QueryPoolByReserveAddressRequest{ReserveAddress: post.Pools[id].ReserveAddress},
			"PoolByPoolCoinDenom": &types.QueryPoolByPoolCoinDenomRequest{PoolCoinDenom: post.Pools[id].PoolCoinDenom}, "DepositRequests": &types.QueryDepositRequestsRequest{PoolId: id},
			"WithdrawRequests": &types.QueryWithdrawRequestsRequest{PoolId: id}} {
			bz, _ := proto.Marshal(req)
			ask(qPath+name, bz)
		}
	}
	if d := digestDiff(before, rawDigest(w.App, w.Ctx)); len(d) > 0 {
		m.rep.Violate("C27", "query-writes", "height %d: answering questions changed the stores %v (asked %s); %s", w.Height, d, join(asked, 20), join(snapDiff(post, w.Snapshot()), 4))
		w.Prev = w.Snapshot()
	}
	m.rep.Count("live_states", 1)
}

func c27Scenario(kind string) func(int, int64, string, *Reporter) {
	return func(idx int, seed int64, tier string, rep *Reporter) {
		m := &hostileMon{rep: rep, r: rand.New(rand.NewSource(subSeed(seed, "hostile"))), p: 0.1}
		w := RunScenario(seed, kind, rep, m)
		rep.Case(w.digest(), len(w.Prev.Pairs) > 0, func() string { return joinLines(w.Trace, 12) })
	}
}

func init() {
	kinds := map[string][2]int{"mixed": {40, 900}, "pools": {24, 500}, "mm": {16, 300}, "cancel": {16, 300}}
	c := &Check{Prop: "C27", Level: "exploration",
		Rule:        "A case is either one random chain history executed by a node that is bombarded with queries, simulations and checks, well-formed and malformed, between and inside blocks, and compared block by block with its quiet execution, or one live history whose stores are digested around bursts of queries; non-trivial when something existed to ask about.",
		Assumptions: []string{"A query answered with the framework's recovered-panic error did not bring the node down."},
		MinObserved: map[string]int64{"blocks_compared": 100, "state_digests": 30, "live_questions": 2000, "live_states": 100},
	}
	for _, k := range sortedKeys(kinds) {
		c.Families = append(c.Families, &Family{Name: "scenario-" + k, N: n(kinds[k][0], kinds[k][1]), Run: c27Scenario(k)})
	}
	c.Families = append(c.Families, &Family{Name: "bombardment", N: n(32, 600), Run: c27Chain})
	register(c)
}
