package main

// Checks which drive the whole application through its consensus interface:
// replicas (C08), crashes (C09), genesis export and import (C10), failed
// transactions (C13).

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	pruningtypes "cosmossdk.io/store/pruning/types"
	storetypes "cosmossdk.io/store/types"
	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/cosmos/gogoproto/proto"

	"defund/x/dex/types"
)

var chainKinds = []string{"mixed", "orders", "pools", "mm", "cancel", "mixed", "lowpools", "mixed"}

// history runs a random chain history and keeps its plan and results.
type history struct {
	g    *ChainGen
	plan *Plan
	res  []*BlockResult
}

func (h *history) C() *Chain { return h.g.C }

// next executes one more random block; false when the chain halted.
func (h *history) next(rep *Reporter) bool {
	b := h.g.NextBlock()
	return h.exec(b, rep)
}

func (h *history) exec(b PlanBlock, rep *Reporter) bool {
	r, err := h.g.C.Step(b)
	if err != nil {
		rep.Count("chain_halts", 1)
		rep.Halts = append(rep.Halts, clip(err.Error(), 400))
		return false
	}
	h.plan.Blocks = append(h.plan.Blocks, b)
	h.res = append(h.res, r)
	rep.Steps++
	rep.Count("blocks", 1)
	for i, c := range r.codes {
		if c == 0 {
			rep.Count("txs_ok", 1)
		} else {
			rep.Count("txs_failed", 1)
			_ = i
		}
	}
	for _, e := range r.raw.Events {
		if e.Type == "user_order_matched" {
			rep.Count("order_fills", 1)
		}
	}
	rep.curTrace = h.g.Trace
	return true
}

func newHistory(seed int64, idx int, db dbm.DB, opts ...func(*baseapp.BaseApp)) *history {
	g, plan := newChainGen(seed, chainKinds[idx%len(chainKinds)], db, opts...)
	return &history{g: g, plan: plan}
}

func (h *history) digest() string {
	var b strings.Builder
	for _, r := range h.res {
		b.WriteString(r.digest())
	}
	return b.String()
}

func (h *history) trades() (n int) {
	for _, r := range h.res {
		if strings.Contains(r.Block, "user_order_matched") {
			n++
		}
	}
	return
}

// ---- C08 ----------------------------------------------------------------------

// nodeOpts is one random local configuration of a node.
func nodeOpts(r *rand.Rand) (out []func(*baseapp.BaseApp), desc string) {
	f, desc := nodeConf(r)
	return f(), desc
}

// nodeConf returns a maker of the options, for several starts of one node.
func nodeConf(r *rand.Rand) (func() []func(*baseapp.BaseApp), string) {
	seed := r.Int63()
	_, desc := nodeOptsFrom(rand.New(rand.NewSource(seed)))
	return func() []func(*baseapp.BaseApp) {
		o, _ := nodeOptsFrom(rand.New(rand.NewSource(seed)))
		return o
	}, desc
}

// nodeConfOn is nodeConf with a given fast-node setting.
func nodeConfOn(r *rand.Rand, noFast bool) (func() []func(*baseapp.BaseApp), string) {
	seed := r.Int63()
	_, desc := nodeOptsOn(rand.New(rand.NewSource(seed)), noFast)
	return func() []func(*baseapp.BaseApp) {
		o, _ := nodeOptsOn(rand.New(rand.NewSource(seed)), noFast)
		return o
	}, desc
}

func nodeOptsFrom(r *rand.Rand) ([]func(*baseapp.BaseApp), string) {
	return nodeOptsOn(r, r.Intn(3) == 0)
}

// nodeOptsOn draws a configuration for a database whose fast-node setting is
// given: switching that between starts of one database is a migration of the
// store library, which is not this repository's.
func nodeOptsOn(r *rand.Rand, noFast bool) (out []func(*baseapp.BaseApp), desc string) {
	pr := []string{"default", "nothing", "everything"}[r.Intn(3)]
	out = append(out, baseapp.SetPruning(pruningtypes.NewPruningOptionsFromString(pr)))
	desc = "pruning=" + pr
	if r.Intn(2) == 0 {
		out = append(out, baseapp.SetInterBlockCache(interBlockCache()))
		desc += " inter-block-cache"
	}
	if r.Intn(2) == 0 {
		out = append(out, baseapp.SetIAVLCacheSize(r.Intn(3)*50))
		desc += " small-iavl-cache"
	}
	if r.Intn(2) == 0 {
		out = append(out, baseapp.SetMinGasPrices("0.5stake"))
		desc += " min-gas-price"
	}
	if noFast {
		out = append(out, baseapp.SetIAVLDisableFastNode(true))
		desc += " no-fast-node"
	}
	if r.Intn(2) == 0 {
		out = append(out, baseapp.SetTrace(true))
		desc += " trace"
	}
	if r.Intn(3) == 0 {
		out = append(out, baseapp.SetQueryGasLimit(100_000))
		desc += " query-gas-limit"
	}
	if r.Intn(3) == 0 {
		out = append(out, baseapp.SetOptimisticExecution())
		desc += " optimistic"
	}
	if r.Intn(4) == 0 {
		out = append(out, baseapp.SetHaltHeight(1<<40))
		desc += " halt-height"
	}
	return
}

// noise is the traffic a node serves besides executing blocks.
type noise struct {
	r   *rand.Rand
	c   *Chain
	rep *Reporter
	// later holds transactions of future blocks.
	pool [][]byte
}

func (n *noise) guard(what string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			n.rep.Count("noise_panics:"+what, 1)
		}
	}()
	f()
	n.rep.Count("noise:"+what, 1)
}

func (n *noise) once() {
	r, c := n.r, n.c
	switch r.Intn(7) {
	case 0, 1:
		if len(n.pool) > 0 {
			tx := n.pool[r.Intn(len(n.pool))]
			t := abci.CheckTxType_New
			if r.Intn(3) == 0 {
				t = abci.CheckTxType_Recheck
			}
			n.guard("checktx", func() { _, _ = c.App.CheckTx(&abci.RequestCheckTx{Tx: tx, Type: t}) })
		}
	case 2, 3:
		if len(n.pool) > 0 && c.Height > 0 {
			tx := n.pool[r.Intn(len(n.pool))]
			n.guard("simulate", func() { _, _, _ = c.App.Simulate(tx) })
		}
	case 4, 5:
		if c.Height > 0 {
			n.guard("query", func() { randomQuery(r, c, c.Users) })
		}
	case 6:
		if c.Height > 0 && r.Intn(4) == 0 {
			n.guard("export", func() { _, _ = c.App.ExportAppStateAndValidators(false, nil, nil) })
		}
	}
}

// randomQuery asks one random, mostly well-formed question.
func randomQuery(r *rand.Rand, c *Chain, users []sdk.AccAddress) {
	path, req := randomQueryReq(r, users)
	bz, err := proto.Marshal(req)
	if err != nil {
		return
	}
	h := int64(0)
	if r.Intn(3) == 0 {
		h = c.Height - int64(r.Intn(3))
	}
	_, _ = c.App.Query(context.Background(), &abci.RequestQuery{Path: path, Data: bz, Height: h})
}

func randomQueryReq(r *rand.Rand, users []sdk.AccAddress) (string, proto.Message) {
	u := userAddr(r.Intn(8)).String()
	if len(users) > 0 {
		u = users[r.Intn(len(users))].String()
	}
	id := func() uint64 { return uint64(r.Intn(5)) }
	pg := func() *query.PageRequest {
		if r.Intn(3) == 0 {
			return nil
		}
		return &query.PageRequest{Offset: uint64(r.Intn(3)), Limit: uint64(r.Intn(6)), CountTotal: r.Intn(2) == 0, Reverse: r.Intn(2) == 0}
	}
	p := "/defund.dex.Query/"
	switch r.Intn(18) {
	case 0:
		return p + "Params", &types.QueryParamsRequest{}
	case 1:
		return p + "Pools", &types.QueryPoolsRequest{PairId: id(), Disabled: []string{"", "true", "false"}[r.Intn(3)], Pagination: pg()}
	case 2:
		return p + "Pool", &types.QueryPoolRequest{PoolId: id()}
	case 3:
		return p + "PoolByReserveAddress", &types.QueryPoolByReserveAddressRequest{ReserveAddress: types.PoolReserveAddress(id()).String()}
	case 4:
		return p + "PoolByPoolCoinDenom", &types.QueryPoolByPoolCoinDenomRequest{PoolCoinDenom: types.PoolCoinDenom(id())}
	case 5:
		var ds []string
		for i := r.Intn(3); i > 0; i-- {
			ds = append(ds, scenarioDenoms[r.Intn(4)])
		}
		return p + "Pairs", &types.QueryPairsRequest{Denoms: ds, Pagination: pg()}
	case 6:
		return p + "Pair", &types.QueryPairRequest{PairId: id()}
	case 7:
		return p + "DepositRequests", &types.QueryDepositRequestsRequest{PoolId: id(), Pagination: pg()}
	case 8:
		return p + "DepositRequest", &types.QueryDepositRequestRequest{PoolId: id(), Id: id()}
	case 9:
		return p + "WithdrawRequests", &types.QueryWithdrawRequestsRequest{PoolId: id(), Pagination: pg()}
	case 10:
		return p + "WithdrawRequest", &types.QueryWithdrawRequestRequest{PoolId: id(), Id: id()}
	case 11:
		return p + "Orders", &types.QueryOrdersRequest{PairId: id(), Pagination: pg()}
	case 12:
		return p + "Order", &types.QueryOrderRequest{PairId: id(), Id: uint64(r.Intn(80))}
	case 13:
		return p + "OrdersByOrderer", &types.QueryOrdersByOrdererRequest{Orderer: u, PairId: id(), Pagination: pg()}
	case 14, 15, 16:
		n := 1 + r.Intn(2)
		ids := []uint64{1, 2}[:n]
		return p + "OrderBooks", &types.QueryOrderBooksRequest{PairIds: ids, NumTicks: uint32(1 + r.Intn(20))}
	default:
		return p + "NumMMOrders", &types.QueryNumMMOrdersRequest{Orderer: u, PairId: id()}
	}
}

// replicaRun executes a plan and compares every block with the results.
func replicaRun(plan *Plan, want []string, db dbm.DB, seed int64, rep *Reporter, noisy bool, opts ...func(*baseapp.BaseApp)) (bad string) {
	r := rand.New(rand.NewSource(seed))
	c := openChain(db, opts...)
	c.users(5)
	nz := &noise{r: r, c: c, rep: rep}
	defer func() {
		if p := recover(); p != nil {
			bad = fmt.Sprintf("height %d: replica panicked: %v %s", c.Height+1, p, stackTop())
		}
	}()
	if err := c.initPlan(plan); err != nil {
		return "replica cannot start: " + err.Error()
	}
	for i, b := range plan.Blocks {
		if noisy {
			nz.pool = b.Txs
			if i+1 < len(plan.Blocks) {
				nz.pool = append(append([][]byte{}, b.Txs...), plan.Blocks[i+1].Txs...)
			}
			for k := r.Intn(5); k > 0; k-- {
				nz.once()
			}
			// Proposals: this block, other blocks, several times.
			for k := r.Intn(4); k > 0; k-- {
				txs, tm := b.Txs, b.Time
				if r.Intn(3) == 0 && len(txs) > 1 { // another proposal for the same height
					txs = append([][]byte{}, txs[1:]...)
					tm = tm.Add(time.Second)
				}
				nz.guard("prepare", func() {
					_, _ = c.App.PrepareProposal(&abci.RequestPrepareProposal{Height: c.Height + 1, Time: tm, Txs: txs, MaxTxBytes: 1 << 20})
				})
				nz.guard("process", func() {
					_, _ = c.App.ProcessProposal(&abci.RequestProcessProposal{Height: c.Height + 1, Time: tm, Txs: txs, Hash: []byte(fmt.Sprint(i, k))})
				})
			}
		}
		res, err := c.Finalize(b)
		if err != nil {
			return fmt.Sprintf("height %d: replica failed: %v", c.Height+1, err)
		}
		if got := canon(res); got != want[i] {
			return fmt.Sprintf("height %d: %s", c.Height+1, firstDiff(want[i], got))
		}
		if noisy && r.Intn(3) == 0 {
			nz.once()
		}
		if err := c.Commit(b); err != nil {
			return fmt.Sprintf("height %d: replica cannot commit: %v", c.Height+1, err)
		}
		rep.Count("blocks_compared", 1)
		rep.Count("txs_compared", int64(len(b.Txs)))
	}
	return ""
}

// canon is what two nodes have to agree on for a block.
func canon(r *BlockResult) string {
	return "hash=" + r.AppHash + "\n" + strings.Join(r.Txs, "\n") + "\n" + r.Block
}

func canons(rs []*BlockResult) (out []string) {
	for _, r := range rs {
		out = append(out, canon(r))
	}
	return
}

type replicaJob struct {
	Plan  *Plan
	Want  []string
	Seed  int64
	Noisy bool
	Level bool // on disk
	Dir   string
	Sleep int64 // nanoseconds to wait before starting
}

func init() {
	extraCmds["replica"] = func(args []string) {
		bz, err := os.ReadFile(args[0])
		if err != nil {
			fmt.Println("cannot read job")
			os.Exit(3)
		}
		var j replicaJob
		if err := json.Unmarshal(bz, &j); err != nil {
			fmt.Println("cannot parse job")
			os.Exit(3)
		}
		time.Sleep(time.Duration(j.Sleep))
		r := rand.New(rand.NewSource(j.Seed))
		opts, _ := nodeOpts(r)
		var db dbm.DB = dbm.NewMemDB()
		if j.Level {
			if db, err = dbm.NewGoLevelDB("app", j.Dir, nil); err != nil {
				fmt.Println("cannot open database")
				os.Exit(3)
			}
		}
		rep := NewReporter("C08", "quick", 0)
		bad := replicaRun(j.Plan, j.Want, db, j.Seed, rep, j.Noisy, opts...)
		out, _ := json.Marshal(map[string]any{"bad": bad, "counts": rep.Counts})
		fmt.Printf("RESULT %s\n", out)
	}
}

var workSeq int
var workMu sync.Mutex

func workDir() string {
	workMu.Lock()
	defer workMu.Unlock()
	workSeq++
	base := os.Getenv("VERIF_WORK")
	if base == "" {
		base = os.TempDir()
	}
	d := filepath.Join(base, fmt.Sprintf("w-%d-%d", os.Getpid(), workSeq))
	_ = os.MkdirAll(d, 0o755)
	return d
}

// childReplica runs a replica in another process with another environment.
func childReplica(j replicaJob, rep *Reporter, env ...string) (bad string, err error) {
	d := workDir()
	defer os.RemoveAll(d)
	j.Dir = d
	bz, err := json.Marshal(j)
	if err != nil {
		return "", err
	}
	f := filepath.Join(d, "job.json")
	if err := os.WriteFile(f, bz, 0o644); err != nil {
		return "", err
	}
	cmd := exec.Command(os.Args[0], "replica", f)
	cmd.Dir = d
	cmd.Env = append(os.Environ(), env...)
	out, runErr := cmd.Output()
	i := strings.Index(string(out), "RESULT ")
	if i < 0 {
		if ee, ok := runErr.(*exec.ExitError); ok && ee.ExitCode() == 2 {
			// a panic which nothing recovered, for example in a goroutine
			return "the replica process died: " + clip(string(ee.Stderr), 600), nil
		}
		return "", fmt.Errorf("no result: %v", runErr)
	}
	var res struct {
		Bad    string           `json:"bad"`
		Counts map[string]int64 `json:"counts"`
	}
	if err := json.Unmarshal(out[i+7:], &res); err != nil {
		return "", err
	}
	for k, v := range res.Counts {
		rep.Count(k, v)
	}
	return res.Bad, nil
}

func c08Case(idx int, seed int64, tier string, rep *Reporter) {
	r := rand.New(rand.NewSource(subSeed(seed, "c08")))
	h := newHistory(seed, idx, dbm.NewMemDB())
	blocks := 14 + r.Intn(10)
	for len(h.res) < blocks && h.next(rep) {
	}
	want := canons(h.res)
	for k := 0; k < 2; k++ {
		opts, desc := nodeOpts(r)
		if bad := replicaRun(h.plan, want, dbm.NewMemDB(), r.Int63(), rep, k == 0, opts...); bad != "" {
			rep.Violate("C08", "replica", "a replica in the same process (%s) disagrees: %s", desc, bad)
		}
		rep.Count("replicas", 1)
	}
	if idx%2 == 0 {
		env := []string{"GOMAXPROCS=" + []string{"1", "8"}[r.Intn(2)], "GOGC=" + []string{"off", "5", "100"}[r.Intn(3)], "TZ=" + []string{"UTC", "Asia/Tokyo", "America/St_Johns"}[r.Intn(3)],
			"LANG=" + []string{"C", "de_DE.UTF-8"}[r.Intn(2)], "HOME=/nonexistent", "GOMEMLIMIT=4GiB"}
		bad, err := childReplica(replicaJob{Plan: h.plan, Want: want, Seed: r.Int63(), Noisy: r.Intn(2) == 0, Level: r.Intn(2) == 0}, rep, env...)
		if err != nil {
			rep.Count("child_not_run", 1)
		} else {
			rep.Count("child_replicas", 1)
		}
		if bad != "" {
			rep.Violate("C08", "child-replica", "a replica in another process (%v) disagrees: %s", env[:4], bad)
		}
	}
	rep.Case(h.digest(), h.trades() > 0, func() string { return joinLines(h.g.Trace, 20) })
}

// c08Wall replays histories whose block times lie around the present, with a
// pause, so that anything derived from the wall clock differs.
func c08Wall(idx int, seed int64, tier string, rep *Reporter) {
	r := rand.New(rand.NewSource(subSeed(seed, "c08w")))
	g, plan := newChainGen(seed, "orders", dbm.NewMemDB())
	_ = plan
	// Rebuild the chain with a genesis time near the present.
	now := time.Now().UTC().Truncate(time.Second)
	c := openChain(dbm.NewMemDB())
	c.users(g.P.Users)
	plan = &Plan{Genesis: plan.Genesis, GenTime: now.Add(-2 * time.Second), Init: 1}
	if err := c.initPlan(plan); err != nil {
		panic(err)
	}
	g.C = c
	g.P.Dt = []time.Duration{0, 200 * time.Millisecond, 500 * time.Millisecond}
	g.P.Lifespans = []time.Duration{0, time.Second, 2 * time.Second, 3 * time.Second, 4 * time.Second, 6 * time.Second}
	g.P.MaxMsgs = 12
	h := &history{g: g, plan: plan}
	for len(h.res) < 14 && h.next(rep) {
	}
	want := canons(h.res)
	time.Sleep(3500 * time.Millisecond)
	opts, desc := nodeOpts(r)
	if bad := replicaRun(h.plan, want, dbm.NewMemDB(), r.Int63(), rep, false, opts...); bad != "" {
		rep.Violate("C08", "wall-clock", "a replica executing the same blocks some seconds later (%s) disagrees: %s", desc, bad)
	}
	rep.Count("delayed_replicas", 1)
	rep.Case(h.digest(), true, nil)
}

func interBlockCache() storetypes.MultiStorePersistentCache { return newInterBlockCache() }

func init() {
	register(&Check{Prop: "C08", Level: "exploration",
		Rule:        "A case is one random history of signed transactions and blocks, executed by a plain node and again by nodes with other options, databases, environment and traffic; every block's hash, results, gas and events are compared. Non-trivial when at least one batch traded.",
		Assumptions: []string{"Gas and events of the block are compared as strings; log texts are not part of consensus and are not compared."},
		Families: []*Family{
			{Name: "replicas", N: n(120, 1200), Run: c08Case},
			{Name: "wall-clock", N: n(8, 64), Run: c08Wall},
		},
		MinObserved: map[string]int64{"blocks_compared": 500, "child_replicas": 5},
	})
	_ = banktypes.ModuleName
}
