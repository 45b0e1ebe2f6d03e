package main

// C10: genesis export and import.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	dbm "github.com/cosmos/cosmos-db"
	simtestutil "github.com/cosmos/cosmos-sdk/testutil/sims"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"

	"defund/x/dex/types"
)

func compactJSON(b []byte) string {
	var o bytes.Buffer
	if err := json.Compact(&o, b); err != nil {
		return string(b)
	}
	return o.String()
}

// importInto runs every module's genesis import on a new application and
// returns a context over the outcome.
func importInto(c *Chain, state map[string]json.RawMessage, height int64) (ctx sdk.Context, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", clip(fmt.Sprint(p), 400))
		}
	}()
	ctx = c.App.BaseApp.NewUncachedContext(false, cmtproto.Header{Height: height, Time: c.Time, ChainID: "verif"})
	_, err = c.App.ModuleManager.InitGenesis(ctx, c.App.AppCodec(), state)
	return
}

func c10Case(idx int, seed int64, tier string, rep *Reporter) {
	r := rand.New(rand.NewSource(subSeed(seed, "c10")))
	h := newHistory(seed, idx, dbm.NewMemDB())
	points := map[int]bool{}
	nb := 12 + r.Intn(14)
	for k := 0; k < 2; k++ {
		points[4+r.Intn(nb-4)] = true
	}
	for len(h.res) < nb && h.next(rep) {
		if !points[len(h.res)] {
			continue
		}
		var follow *c10Follow
		if len(h.res) < nb {
			follow = &c10Follow{}
		}
		if !c10Export(h, rep, r, follow) {
			return
		}
		if follow == nil || follow.c == nil {
			continue
		}
		// Both chains execute the same blocks.
		for k := 0; k < 4; k++ {
			if !h.next(rep) {
				return
			}
			last := h.plan.Blocks[len(h.plan.Blocks)-1]
			a := h.res[len(h.res)-1]
			b, err := follow.c.Step(last)
			if err != nil {
				rep.Violate("C10", "continue", "the chain started from the export of height %d fails at height %d, the original does not: %v", follow.at, a.Height, err)
				return
			}
			for i := range a.codes {
				if a.codes[i] != b.codes[i] || a.spaces[i] != b.spaces[i] {
					rep.Violate("C10", "continue-result", "transaction %d of height %d (export at %d): code %d/%s in the original, %d/%s in the imported chain: %s / %s", i, a.Height, follow.at,
						a.codes[i], a.spaces[i], b.codes[i], b.spaces[i], clip(a.logs[i], 200), clip(b.logs[i], 200))
					return
				}
				rep.Count("txs_compared", 1)
			}
			if d := snapDiff(h.C().Snap(), follow.c.Snap()); len(d) > 0 {
				rep.Violate("C10", "continue-state", "height %d, %d blocks after the import: %s", a.Height, k+1, join(d, 5))
				return
			}
			rep.Count("blocks_continued", 1)
		}
		// Exporting both again gives the same document.
		e1, err1 := h.C().App.ExportAppStateAndValidators(false, nil, nil)
		e2, err2 := follow.c.App.ExportAppStateAndValidators(false, nil, nil)
		if err1 != nil || err2 != nil {
			rep.Violate("C10", "re-export", "export fails: %v / %v", err1, err2)
			return
		}
		var s1, s2 map[string]json.RawMessage
		_ = json.Unmarshal(e1.AppState, &s1)
		_ = json.Unmarshal(e2.AppState, &s2)
		if a, b := compactJSON(s1[types.ModuleName]), compactJSON(s2[types.ModuleName]); a != b {
			rep.Violate("C10", "continue-export", "exports of height %d differ: %s", h.C().Height, firstDiff(a, b))
			return
		}
		rep.Count("second_exports", 1)
	}
	rep.Case(h.digest(), h.trades() > 0, func() string { return joinLines(h.g.Trace, 20) })
}

type c10Follow struct {
	c  *Chain
	at int64
}

func c10Export(h *history, rep *Reporter, r *rand.Rand, follow *c10Follow) (ok bool) {
	c := h.C()
	v := func(key, f string, a ...any) bool {
		rep.Violate("C10", key, "height %d: "+f, append([]any{c.Height}, a...)...)
		return false
	}
	defer func() {
		if p := recover(); p != nil {
			ok = v("panic", "exporting or importing panics: %v %s", p, stackTop())
		}
	}()
	before := c.Snap()
	exp, err := c.App.ExportAppStateAndValidators(false, nil, nil)
	if err != nil {
		return v("export", "export fails: %v", err)
	}
	if d := snapDiff(before, c.Snap()); len(d) > 0 {
		return v("export-changes", "exporting changed the state: %s", join(d, 4))
	}
	var state map[string]json.RawMessage
	if err := json.Unmarshal(exp.AppState, &state); err != nil {
		return v("export", "export is not a document: %v", err)
	}
	// The document holds every record.
	var gs types.GenesisState
	if err := c.App.AppCodec().UnmarshalJSON(state[types.ModuleName], &gs); err != nil {
		return v("export", "the exchange's section cannot be read: %v", err)
	}
	rep.Count("exports", 1)
	rep.Count("pending_requests", int64(len(gs.DepositRequests)+len(gs.WithdrawRequests)))
	rep.Count("exported_orders", int64(len(gs.Orders)))
	rep.Count("exported_mm_counters", int64(len(gs.NumMarketMakingOrdersRecords)))
	rep.Count("exported_pools", int64(len(gs.Pools)))
	if err := gs.Validate(); err != nil {
		return v("validate", "a reachable state is refused by genesis validation: %v", err)
	}
	if vb, is := c.App.ModuleManager.Modules[types.ModuleName].(module.HasGenesisBasics); is {
		if err := vb.ValidateGenesis(c.App.AppCodec(), c.TxCfg, state[types.ModuleName]); err != nil {
			return v("validate", "a reachable state is refused by the module's genesis validation: %v", err)
		}
	}
	// Import on a new application.
	n := openChain(dbm.NewMemDB())
	n.Time = c.Time
	ctx, err := importInto(n, state, exp.Height)
	if err != nil {
		return v("import", "a reachable state cannot be imported: %v", err)
	}
	after := takeSnap(n.App.DexKeeper, n.App.BankKeeper, ctx)
	if d := snapDiff(before, after); len(d) > 0 {
		return v("import-state", "the imported state differs: %s", join(d, 5))
	}
	gs2, err := n.App.ModuleManager.ExportGenesisForModules(ctx, n.App.AppCodec(), nil)
	if err != nil {
		return v("re-export", "exporting the imported state fails: %v", err)
	}
	for _, m := range []string{types.ModuleName, "bank"} {
		if a, b := compactJSON(state[m]), compactJSON(gs2[m]); a != b {
			return v("re-export", "exporting the imported state gives another %s document: %s", m, firstDiff(a, b))
		}
	}
	rep.Count("imports", 1)
	// Indexes: everything has to be found the way users look for it.
	if d := queryCheck(n.App, ctx, after, r, nil); len(d) > 0 {
		return v("import-index", "lookups in the imported state: %s", join(d, 4))
	}
	if follow != nil {
		n := openChain(dbm.NewMemDB())
		n.users(len(c.Users))
		_, err := n.App.InitChain(&abci.RequestInitChain{ChainId: "verif", ConsensusParams: simtestutil.DefaultConsensusParams,
			AppStateBytes: exp.AppState, Time: c.Time, InitialHeight: exp.Height})
		if err != nil {
			return v("import", "a chain does not start from the export: %v", err)
		}
		n.Height, n.Time = exp.Height-1, c.Time
		follow.c, follow.at = n, c.Height
	}
	return true
}

func init() {
	register(&Check{Prop: "C10", Level: "exploration",
		Rule:        "A case is one random chain history exported at two heights; each export is validated, imported on a new application, compared record by record and document by document, and continued by both chains with the same signed blocks. Non-trivial when at least one batch traded.",
		Assumptions: []string{"The importing chain starts at the height and time after the export, as the exported document says."},
		Families: []*Family{
			{Name: "exports", N: n(160, 2000), Run: c10Case},
		},
		MinObserved: map[string]int64{"imports": 100, "blocks_continued": 200, "pending_requests": 30},
	})
	_ = strings.Join
}
