package main

// C20: a node which executes blocks while it serves questions, simulations and
// checks from other goroutines, under the race detector. check.sh builds this
// property's harness with -race; the reports are read back from the log files
// of the detector.

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"

	pruningtypes "cosmossdk.io/store/pruning/types"
	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	"github.com/cosmos/gogoproto/proto"

	"defund/x/dex/types"
)

// ---- reports of the race detector ----------------------------------------------

var raceSeen int64 // bytes of the log already judged
var raceKnown = map[string]bool{}

func raceLog() string {
	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		if v, ok := strings.CutPrefix(o, "log_path="); ok {
			return fmt.Sprintf("%s.%d", v, os.Getpid())
		}
	}
	return ""
}

var raceAccess = regexp.MustCompile(`(?m)^(Write|Read|Previous write|Previous read|Atomic|Previous atomic)[^\n]* by [^\n]*:\n((?:  [^\n]*\n)+)`)

// raceReports returns the new reports: for each, the text and, per access, the
// functions on its stack, innermost first.
func raceReports() (out []string, stacks [][][]string) {
	bz, err := os.ReadFile(raceLog())
	if err != nil || int64(len(bz)) <= raceSeen {
		return
	}
	part := string(bz[raceSeen:])
	end := strings.LastIndex(part, "==================\n")
	if end < 0 {
		return
	}
	raceSeen += int64(end)
	for _, rpt := range strings.Split(part[:end], "==================\n") {
		if !strings.Contains(rpt, "WARNING: DATA RACE") {
			continue
		}
		var ss [][]string
		for _, m := range raceAccess.FindAllStringSubmatch(rpt, -1) {
			var fs []string
			for _, l := range strings.Split(m[2], "\n") {
				if strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "   ") {
					fs = append(fs, strings.TrimSpace(l))
				}
			}
			ss = append(ss, fs)
		}
		out = append(out, rpt)
		stacks = append(stacks, ss)
	}
	return
}

// raceOwner is the package that an access is charged to: the innermost frame
// outside the runtime, the standard library and the plain number and coin
// types.
func raceOwner(fs []string) string {
	for _, f := range fs {
		f = strings.TrimSuffix(f, "()")
		pkg := f
		slash := strings.LastIndexByte(f, '/')
		if i := strings.IndexByte(f[slash+1:], '.'); i >= 0 {
			pkg = f[:slash+1+i]
		}
		first := pkg
		if i := strings.IndexByte(first, '/'); i >= 0 {
			first = first[:i]
		}
		if pkg != "main" && first != "defund" && !strings.Contains(first, ".") {
			continue // standard library
		}
		if pkg == "cosmossdk.io/math" || pkg == "github.com/cosmos/cosmos-sdk/types" || strings.HasPrefix(pkg, "github.com/cosmos/gogoproto") {
			continue
		}
		return f
	}
	return ""
}

// judgeRaces reports the races of the code under test.
func judgeRaces(rep *Reporter) {
	texts, stacks := raceReports()
	for i, ss := range stacks {
		own := ""
		var who []string
		for _, fs := range ss {
			o := raceOwner(fs)
			who = append(who, o)
			if strings.HasPrefix(o, "defund/") && !strings.HasPrefix(o, "defund/zzverif") {
				own = o
			}
		}
		if own == "" {
			rep.Count("races_outside_the_code_under_test", 1)
			k := join(who, 4)
			if !raceKnown[k] {
				raceKnown[k] = true
				rep.Count("race between "+clip(k, 200), 1)
			}
			continue
		}
		rep.Count("races", 1)
		rep.Violate("C20", "race:"+own, "data race between %s\n%s", join(who, 4), clip(texts[i], 2500))
	}
}

// ---- serving while executing ----------------------------------------------------

type fixedQuery struct {
	path string
	bz   []byte
}

// fixedQueries are questions whose answers are known for every height.
func fixedQueries(r *rand.Rand, users []sdk.AccAddress) (out []fixedQuery) {
	add := func(name string, m proto.Message) {
		bz, err := proto.Marshal(m)
		if err == nil {
			out = append(out, fixedQuery{qPath + name, bz})
		}
	}
	add("Params", &types.QueryParamsRequest{})
	add("Pairs", &types.QueryPairsRequest{})
	add("Pairs", &types.QueryPairsRequest{Denoms: []string{"bbb"}})
	for id := uint64(1); id <= 3; id++ {
		add("Pair", &types.QueryPairRequest{PairId: id})
		add("Pools", &types.QueryPoolsRequest{PairId: id, Pagination: &query.PageRequest{Limit: 50, CountTotal: true}})
		add("Pool", &types.QueryPoolRequest{PoolId: id})
		add("PoolByPoolCoinDenom", &types.QueryPoolByPoolCoinDenomRequest{PoolCoinDenom: types.PoolCoinDenom(id)})
		add("PoolByReserveAddress", &types.QueryPoolByReserveAddressRequest{ReserveAddress: types.PoolReserveAddress(id).String()})
		add("Orders", &types.QueryOrdersRequest{PairId: id, Pagination: &query.PageRequest{Limit: 200}})
		add("Orders", &types.QueryOrdersRequest{PairId: id, Pagination: &query.PageRequest{Limit: 200, Reverse: true}})
		add("OrderBooks", &types.QueryOrderBooksRequest{PairIds: []uint64{id}, NumTicks: 10})
		add("OrderBooks", &types.QueryOrderBooksRequest{PairIds: []uint64{id}, PriceUnitPowers: []uint32{0, 1, 3}, NumTicks: 5})
		add("DepositRequests", &types.QueryDepositRequestsRequest{PoolId: id})
		add("WithdrawRequests", &types.QueryWithdrawRequestsRequest{PoolId: id})
	}
	add("OrderBooks", &types.QueryOrderBooksRequest{PairIds: []uint64{1, 2}, NumTicks: 10})
	for i, u := range users {
		if i == 3 {
			break
		}
		add("OrdersByOrderer", &types.QueryOrdersByOrdererRequest{Orderer: u.String()})
		add("OrdersByOrderer", &types.QueryOrdersByOrdererRequest{Orderer: u.String(), PairId: 1})
		add("NumMMOrders", &types.QueryNumMMOrdersRequest{Orderer: u.String(), PairId: 1})
	}
	return
}

func answer(c *Chain, q fixedQuery, height int64) (h int64, a string, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%w: %v %s", errPanicked, p, stackTop())
		}
	}()
	r, err := c.App.Query(context.Background(), &abci.RequestQuery{Path: q.path, Data: q.bz, Height: height})
	if err != nil {
		return 0, "", err
	}
	return r.Height, fmt.Sprintf("%d %s %x", r.Code, r.Codespace, r.Value), nil
}

func nothingPruned() func(*baseapp.BaseApp) {
	return baseapp.SetPruning(pruningtypes.NewPruningOptions(pruningtypes.PruningNothing))
}

func c20Serve(idx int, seed int64, tier string, rep *Reporter) {
	blocks := 16
	h := newHistory(seed, idx, dbm.NewMemDB(), nothingPruned())
	for len(h.res) < blocks && h.next(rep) {
	}
	want := canons(h.res)
	r := rand.New(rand.NewSource(subSeed(seed, "serve")))
	qs := fixedQueries(r, h.g.C.Users)
	// the answers of a node that did nothing else
	table := make([]map[int64]string, len(qs))
	last := h.C().Height
	for i, q := range qs {
		table[i] = map[int64]string{}
		for at := int64(2); at <= last; at++ {
			if _, a, err := answer(h.C(), q, at); err == nil {
				table[i][at] = a
			}
		}
	}
	judgeRaces(rep)

	// Reads at the latest version through the store library's fast nodes are
	// not isolated from a commit in progress; that is not this repository's.
	c := openChain(dbm.NewMemDB(), nothingPruned(), baseapp.SetIAVLDisableFastNode(true))
	c.users(h.g.P.Users)
	if err := c.initPlan(h.plan); err != nil {
		panic(err)
	}
	var height atomic.Int64
	var stop atomic.Bool
	var mu sync.Mutex // of the report
	var bad []string
	complain := func(key, f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		if len(bad) < 20 {
			bad = append(bad, key+"|"+fmt.Sprintf(f, a...))
		}
	}
	counts := map[string]*atomic.Int64{}
	for _, k := range []string{"answers_at_height", "answers_latest", "simulations", "checks", "answers_missing"} {
		counts[k] = new(atomic.Int64)
	}
	var abciMu sync.RWMutex // the lock of the consensus connection: checks do not overlap execution and commit
	var txs [][]byte
	for _, b := range h.plan.Blocks {
		txs = append(txs, b.Txs...)
	}
	var wg sync.WaitGroup
	serve := func(seed int64, role int) {
		defer wg.Done()
		defer func() {
			if p := recover(); p != nil {
				complain("panic", "serving goroutine panicked: %v %s", p, stackTop())
			}
		}()
		r := rand.New(rand.NewSource(seed))
		for !stop.Load() {
			now := height.Load()
			if now < 2 {
				continue
			}
			switch {
			case role == 0 || role == 1 || role == 2: // at given heights
				i := r.Intn(len(qs))
				at := 2 + r.Int63n(now-1)
				if r.Intn(2) == 0 {
					at = now
				}
				_, a, err := answer(c, qs[i], at)
				if err != nil {
					complain("panic", "%s at height %d: %v", qs[i].path, at, err)
				} else if w, ok := table[i][at]; ok {
					counts["answers_at_height"].Add(1)
					if a != w {
						complain("answer", "%s at height %d answers, while blocks are executed, %s; the answer is %s", qs[i].path, at, clip(a, 300), clip(w, 300))
					}
				}
			case role == 3 || role == 4: // at whatever height the node is
				i := r.Intn(len(qs))
				at, a, err := answer(c, qs[i], 0)
				if err != nil {
					complain("panic", "%s: %v", qs[i].path, err)
					continue
				}
				after := height.Load()
				if w, ok := table[i][at]; ok {
					counts["answers_latest"].Add(1)
					if a != w || at < now || at > after+1 {
						complain("answer", "%s answers for height %d (committed were %d to %d) %s; the answer is %s", qs[i].path, at, now, after, clip(a, 300), clip(w, 300))
					}
				} else {
					counts["answers_missing"].Add(1)
				}
			case role == 5:
				if len(txs) > 0 {
					abciMu.RLock()
					_, _, _ = c.App.Simulate(txs[r.Intn(len(txs))])
					abciMu.RUnlock()
					counts["simulations"].Add(1)
				}
			case role == 6:
				if len(txs) > 0 {
					abciMu.Lock()
					_, _ = c.App.CheckTx(&abci.RequestCheckTx{Tx: txs[r.Intn(len(txs))]})
					abciMu.Unlock()
					counts["checks"].Add(1)
				}
			}
		}
	}
	for role := 0; role < 7; role++ {
		wg.Add(1)
		go serve(r.Int63(), role)
	}
	for i, b := range h.plan.Blocks {
		abciMu.Lock()
		res, err := c.tryFinalize(b)
		abciMu.Unlock()
		if err != nil {
			complain("outcome", "height %d: the block fails on a node that serves: %v", c.Height+1, clip(err.Error(), 500))
			break
		}
		if got := canon(res); got != want[i] {
			complain("outcome", "height %d: a node that serves ends the block differently: %s", c.Height+1, firstDiff(want[i], got))
			break
		}
		abciMu.Lock()
		_, err = c.App.Commit()
		c.Height++
		abciMu.Unlock()
		if err != nil {
			complain("outcome", "height %d: cannot commit: %v", c.Height, err)
			break
		}
		height.Store(c.Height)
		rep.Count("blocks_served", 1)
	}
	stop.Store(true)
	wg.Wait()
	for k, v := range counts {
		rep.Count(k, v.Load())
	}
	for _, b := range bad {
		k, w, _ := strings.Cut(b, "|")
		rep.Violate("C20", k, "%s", w)
	}
	judgeRaces(rep)
	rep.Case(h.digest(), h.trades() > 0, func() string { return joinLines(h.g.Trace, 12) })
}

// c20Worlds runs several independent exchanges of one process at the same
// time; each has to go like it goes alone.
func c20Worlds(idx int, seed int64, tier string, rep *Reporter) {
	const k = 6
	kinds := []string{"mixed", "orders", "pools", "mm", "cancel", "lowpools"}
	run := func(i int) (d string) {
		defer func() {
			if p := recover(); p != nil {
				d = fmt.Sprintf("panic: %v %s", p, stackTop())
			}
		}()
		rp := NewReporter("C20", tier, seed)
		m := &queryMon{rep: rp, r: rand.New(rand.NewSource(subSeed(seed, "ask", i))), prop: "C19", p: 0.05}
		w := RunScenario(subSeed(seed, i), kinds[i%len(kinds)], rp, m)
		return w.digest() + fmt.Sprint(rawDigest(w.App, w.Ctx))
	}
	var conc [k]string
	var wg sync.WaitGroup
	for i := 0; i < k; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); conc[i] = run(i) }()
	}
	wg.Wait()
	judgeRaces(rep)
	for i := 0; i < k; i++ {
		rep.Count("parallel_exchanges", 1)
		if tier == "quick" && i%3 != idx%3 {
			continue // the rest is compared for other cases
		}
		rep.Count("parallel_exchanges_compared", 1)
		if alone := run(i); alone != conc[i] {
			rep.Violate("C20", "parallel", "an exchange which ran beside others in one process went differently than alone: %s", firstDiff(alone, conc[i]))
		}
	}
	rep.Case(fmt.Sprint(seed), true, func() string { return clip(conc[0], 1500) })
}

func init() {
	register(&Check{Prop: "C20", Level: "exploration",
		Rule:        "A case is either one random chain history executed by a node while seven goroutines keep asking, simulating and checking, or six random exchanges running in parallel in one process, all under the race detector; every answer is compared with what a quiet node answers for that height and every block with its quiet execution. Non-trivial when something traded.",
		Assumptions: []string{"Checks and simulations do not overlap execution and commit of a block (the consensus connection's lock), questions do.", "A race is charged to the code under test when the innermost frame of one access outside the standard library and the number and coin types is its own."},
		Families: []*Family{
			{Name: "serve", N: n(8, 120), Run: c20Serve},
			{Name: "worlds", N: n(6, 90), Run: c20Worlds},
		},
		MinObserved: map[string]int64{"answers_at_height": 1000, "answers_latest": 200, "simulations": 50, "checks": 50, "blocks_served": 50},
	})
}
