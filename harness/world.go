package main

// World: one freshly built application instance with a deterministic genesis,
// driven at message/block granularity ("keeper mode"): every message goes
// through ValidateBasic and the real message router inside a cached context
// (as baseapp does), every block boundary runs the real dex BeginBlock and
// EndBlock. A snapshot of the observable state is taken around every step and
// handed, with the emitted events, to the monitors.

import (
	"context"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/core/appmodule"
	"cosmossdk.io/log"
	sm "cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cometbft/cometbft/crypto/ed25519"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	cryptocodec "github.com/cosmos/cosmos-sdk/crypto/codec"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	simtestutil "github.com/cosmos/cosmos-sdk/testutil/sims"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"

	"defund/app"
	"defund/x/dex/types"
)

var genesisTime = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

// userKey derives a deterministic account key.
func userKey(i int) *secp256k1.PrivKey {
	h := sha256.Sum256([]byte(fmt.Sprintf("verif-user-%d", i)))
	return &secp256k1.PrivKey{Key: h[:]}
}

func userAddr(i int) sdk.AccAddress { return sdk.AccAddress(userKey(i).PubKey().Address()) }

func govAuthority() sdk.AccAddress { return authtypes.NewModuleAddress(govtypes.ModuleName) }

type GenesisOpts struct {
	NumUsers int
	Coins    sdk.Coins // for each user
	Dex      *types.GenesisState
	FastGov  bool
	// Twins makes the last two accounts look like the first one: one whose
	// address differs in its last byte, one whose (long) address begins with it.
	Twins bool
}

func (o GenesisOpts) addr(i int) sdk.AccAddress {
	if o.Twins && o.NumUsers > 3 {
		a := append([]byte(nil), userAddr(0)...)
		switch i {
		case o.NumUsers - 1:
			a[len(a)-1] ^= 1
			return a
		case o.NumUsers - 2:
			return append(a, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0)
		}
	}
	return userAddr(i)
}

// buildGenesis returns a full, valid and deterministic genesis app state.
func buildGenesis(a *app.App, o GenesisOpts) map[string]json.RawMessage {
	gs := a.DefaultGenesis()
	cdc := a.AppCodec()

	var accs []authtypes.GenesisAccount
	var bals []banktypes.Balance
	total := sdk.NewCoins()
	for i := 0; i < o.NumUsers; i++ {
		accs = append(accs, authtypes.NewBaseAccount(o.addr(i), nil, uint64(i), 0))
		bals = append(bals, banktypes.Balance{Address: o.addr(i).String(), Coins: o.Coins})
		total = total.Add(o.Coins...)
	}
	gs[authtypes.ModuleName] = cdc.MustMarshalJSON(authtypes.NewGenesisState(authtypes.DefaultParams(), accs))

	seed := sha256.Sum256([]byte("verif-validator"))
	pub := ed25519.GenPrivKeyFromSecret(seed[:]).PubKey()
	pk, err := cryptocodec.FromCmtPubKeyInterface(pub)
	if err != nil {
		panic(err)
	}
	pkAny, err := codectypes.NewAnyWithValue(pk)
	if err != nil {
		panic(err)
	}
	bond := sdk.DefaultPowerReduction
	val := stakingtypes.Validator{
		OperatorAddress: sdk.ValAddress(pub.Address()).String(), ConsensusPubkey: pkAny,
		Status: stakingtypes.Bonded, Tokens: bond, DelegatorShares: sm.LegacyNewDecFromInt(bond),
		UnbondingTime:     time.Unix(0, 0).UTC(),
		Commission:        stakingtypes.NewCommission(sm.LegacyZeroDec(), sm.LegacyZeroDec(), sm.LegacyZeroDec()),
		MinSelfDelegation: sm.ZeroInt(),
	}
	del := stakingtypes.NewDelegation(userAddr(0).String(), sdk.ValAddress(pub.Address()).String(), sm.LegacyNewDecFromInt(bond))
	sp := stakingtypes.DefaultParams()
	gs[stakingtypes.ModuleName] = cdc.MustMarshalJSON(stakingtypes.NewGenesisState(sp, []stakingtypes.Validator{val}, []stakingtypes.Delegation{del}))
	bc := sdk.NewCoin(sp.BondDenom, bond)
	bals = append(bals, banktypes.Balance{Address: authtypes.NewModuleAddress(stakingtypes.BondedPoolName).String(), Coins: sdk.NewCoins(bc)})
	total = total.Add(bc)
	gs[banktypes.ModuleName] = cdc.MustMarshalJSON(banktypes.NewGenesisState(banktypes.DefaultParams(), bals, total, nil, nil))

	mp := minttypes.DefaultParams()
	mp.InflationMax, mp.InflationMin, mp.InflationRateChange = sm.LegacyZeroDec(), sm.LegacyZeroDec(), sm.LegacyZeroDec()
	mi := minttypes.DefaultInitialMinter()
	mi.Inflation = sm.LegacyZeroDec()
	gs[minttypes.ModuleName] = cdc.MustMarshalJSON(minttypes.NewGenesisState(mi, mp))
	if o.FastGov {
		gp := govv1.DefaultGenesisState()
		d := 12 * time.Second
		ed := 6 * time.Second
		gp.Params.VotingPeriod, gp.Params.ExpeditedVotingPeriod = &d, &ed
		gp.Params.MinDeposit = sdk.NewCoins(sdk.NewInt64Coin(sp.BondDenom, 10))
		gp.Params.ExpeditedMinDeposit = sdk.NewCoins(sdk.NewInt64Coin(sp.BondDenom, 50))
		gs[govtypes.ModuleName] = cdc.MustMarshalJSON(gp)
	}
	if o.Dex != nil {
		gs[types.ModuleName] = cdc.MustMarshalJSON(o.Dex)
	}
	return gs
}

func newApp(db dbm.DB) *app.App {
	return app.New(log.NewNopLogger(), db, nil, true, simtestutil.EmptyAppOptions{}, baseapp.SetChainID("verif"))
}

func initChain(a *app.App, gs map[string]json.RawMessage) error {
	bz, err := json.Marshal(gs)
	if err != nil {
		return err
	}
	_, err = a.InitChain(&abci.RequestInitChain{
		ChainId: "verif", ConsensusParams: simtestutil.DefaultConsensusParams, AppStateBytes: bz, Time: genesisTime, InitialHeight: 1})
	return err
}

type StepKind string

const (
	StepTx    StepKind = "tx"
	StepBegin StepKind = "begin"
	StepEnd   StepKind = "end"
)

type Step struct {
	N      int
	Kind   StepKind
	Msg    sdk.Msg
	Signer string
	Err    error
	Panic  string // recovered panic, with its stack
	Events []abci.Event
	Height int64
	Time   time.Time
}

func (s *Step) OK() bool { return s.Err == nil && s.Panic == "" }

func (s *Step) String() string {
	out := fmt.Sprintf("#%d h=%d %s", s.N, s.Height, s.Kind)
	if s.Msg != nil {
		out += fmt.Sprintf(" %T{%v}", s.Msg, s.Msg)
	}
	if s.Err != nil {
		out += " err=" + s.Err.Error()
	}
	if s.Panic != "" {
		out += " PANIC=" + firstLine(s.Panic)
	}
	return out
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

type World struct {
	App    *app.App
	Ctx    sdk.Context
	Users  []sdk.AccAddress
	Height int64
	Time   time.Time
	R      *rand.Rand
	Mod    appmodule.AppModule
	Dead   string // set when the chain halted
	N      int
	Trace  []string

	Prev *Snap
	Mons []Monitor
	Rep  *Reporter
	Base map[string]bool // non-pool-coin denoms

	inBlock bool
}

// Monitor watches steps.
type Monitor interface {
	Observe(w *World, st *Step, pre, post *Snap)
}

func NewWorld(seed int64, o GenesisOpts, rep *Reporter, mons ...Monitor) *World {
	a := newApp(dbm.NewMemDB())
	if err := initChain(a, buildGenesis(a, o)); err != nil {
		panic(err)
	}
	if _, err := a.FinalizeBlock(&abci.RequestFinalizeBlock{Height: 1, Time: genesisTime}); err != nil {
		panic(err)
	}
	if _, err := a.Commit(); err != nil {
		panic(err)
	}
	w := &World{App: a, Height: 1, Time: genesisTime, R: rand.New(rand.NewSource(seed)), Rep: rep, Mons: mons}
	w.Ctx = a.BaseApp.NewUncachedContext(false, cmtproto.Header{Height: 1, Time: genesisTime, ChainID: "verif"})
	for i := 0; i < o.NumUsers; i++ {
		w.Users = append(w.Users, o.addr(i))
	}
	w.Mod = a.ModuleManager.Modules[types.ModuleName].(appmodule.AppModule)
	w.Prev = w.Snapshot()
	return w
}

func (w *World) Fund(addr sdk.AccAddress, coins sdk.Coins) {
	if err := w.App.BankKeeper.MintCoins(w.Ctx, minttypes.ModuleName, coins); err != nil {
		panic(err)
	}
	if err := w.App.BankKeeper.SendCoinsFromModuleToAccount(w.Ctx, minttypes.ModuleName, addr, coins); err != nil {
		panic(err)
	}
	w.Prev = w.Snapshot()
}

// SetParams installs parameters directly (scenario set-up, not a monitored step).
func (w *World) SetParams(p types.Params) {
	w.App.DexKeeper.SetParams(w.Ctx, p)
	w.Prev = w.Snapshot()
}

func (w *World) observe(st *Step) *Snap {
	w.N++
	st.N = w.N
	st.Height, st.Time = w.Height, w.Time
	pre := w.Prev
	post := w.Snapshot()
	w.Prev = post
	w.Trace = append(w.Trace, st.String())
	echo("%s", st.String())
	if w.Rep != nil {
		w.Rep.Steps++
		w.Rep.curTrace = w.Trace
		if st.Kind == StepTx {
			k := fmt.Sprintf("tx:%s", msgName(st.Msg))
			if st.OK() {
				w.Rep.Count(k+":ok", 1)
			} else {
				w.Rep.Count(k+":rejected", 1)
			}
		} else {
			w.Rep.Count("block_step:"+string(st.Kind), 1)
		}
	}
	for _, m := range w.Mons {
		m.Observe(w, st, pre, post)
	}
	return post
}

func msgName(m sdk.Msg) string {
	s := fmt.Sprintf("%T", m)
	return s[strings.LastIndexByte(s, '.')+1:]
}

// runCached executes f in a cached context which is written back only if f
// succeeded.
func (w *World) runCached(f func(ctx sdk.Context) error) (evs []abci.Event, err error, pan string) {
	cctx, write := w.Ctx.CacheContext()
	em := sdk.NewEventManager()
	cctx = cctx.WithEventManager(em)
	func() {
		defer func() {
			if r := recover(); r != nil {
				pan = fmt.Sprintf("%v\n%s", r, debug.Stack())
			}
		}()
		err = f(cctx)
	}()
	if err == nil && pan == "" {
		write()
		evs = em.ABCIEvents()
	}
	return
}

// BeginBlock starts the next block dt later.
func (w *World) BeginBlock(dt time.Duration) bool {
	if w.Dead != "" {
		return false
	}
	w.Height++
	w.Time = w.Time.Add(dt)
	w.Ctx = w.Ctx.WithBlockHeight(w.Height).WithBlockTime(w.Time).WithHeaderInfo(headerInfo(w.Height, w.Time))
	evs, err, pan := w.runCached(func(ctx sdk.Context) error {
		if m, ok := w.Mod.(appmodule.HasBeginBlocker); ok {
			return m.BeginBlock(context.Context(ctx))
		}
		return nil
	})
	st := &Step{Kind: StepBegin, Events: evs, Err: err, Panic: pan}
	if !st.OK() {
		w.Dead = st.String()
	}
	w.observe(st)
	return st.OK()
}

func (w *World) EndBlock() bool {
	echo("endblock %d", w.Height+0)
	if w.Dead != "" {
		return false
	}
	evs, err, pan := w.runCached(func(ctx sdk.Context) error {
		if m, ok := w.Mod.(appmodule.HasEndBlocker); ok {
			return m.EndBlock(context.Context(ctx))
		}
		return nil
	})
	st := &Step{Kind: StepEnd, Events: evs, Err: err, Panic: pan}
	if !st.OK() {
		w.Dead = st.String()
	}
	w.observe(st)
	return st.OK()
}

type validateBasic interface{ ValidateBasic() error }

// Deliver runs one message as a transaction of its own.
func (w *World) Deliver(msg sdk.Msg) *Step {
	st := &Step{Kind: StepTx, Msg: msg, Signer: signerOf(msg)}
	if w.Dead != "" {
		st.Err = fmt.Errorf("chain halted")
		return st
	}
	for _, m := range w.Mons {
		if b, ok := m.(beforeMsg); ok {
			b.Before(w, msg)
		}
	}
	st.Events, st.Err, st.Panic = w.runCached(func(ctx sdk.Context) error {
		if vb, ok := msg.(validateBasic); ok {
			if err := vb.ValidateBasic(); err != nil {
				return err
			}
		}
		h := w.App.MsgServiceRouter().Handler(msg)
		if h == nil {
			return fmt.Errorf("no handler for %T", msg)
		}
		res, err := h(ctx, msg)
		if err != nil {
			return err
		}
		for _, e := range res.GetEvents() {
			ctx.EventManager().EmitEvent(sdk.Event(e))
		}
		return nil
	})
	w.observe(st)
	return st
}

func signerOf(msg sdk.Msg) string {
	switch m := msg.(type) {
	case *types.MsgCreatePair:
		return m.Creator
	case *types.MsgCreatePool:
		return m.Creator
	case *types.MsgCreateRangedPool:
		return m.Creator
	case *types.MsgDeposit:
		return m.Depositor
	case *types.MsgWithdraw:
		return m.Withdrawer
	case *types.MsgLimitOrder:
		return m.Orderer
	case *types.MsgMarketOrder:
		return m.Orderer
	case *types.MsgMMOrder:
		return m.Orderer
	case *types.MsgCancelOrder:
		return m.Orderer
	case *types.MsgCancelAllOrders:
		return m.Orderer
	case *types.MsgUpdateParams:
		return m.Authority
	case *banktypes.MsgSend:
		return m.FromAddress
	case *govv1.MsgSubmitProposal:
		return m.Proposer
	case *govv1.MsgVote:
		return m.Voter
	case *authz.MsgExec:
		return m.Grantee
	case *authz.MsgGrant:
		return m.Granter
	}
	return ""
}

func subSeed(seed int64, labels ...any) int64 {
	h := sha256.New()
	fmt.Fprint(h, seed)
	for _, l := range labels {
		fmt.Fprintf(h, "|%v", l)
	}
	s := h.Sum(nil)
	return int64(binary.BigEndian.Uint64(s[:8]) >> 1)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
