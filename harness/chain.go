package main

// Chain: the application driven through its consensus interface with signed
// transactions, as a node would.

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/log"
	sm "cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	simtestutil "github.com/cosmos/cosmos-sdk/testutil/sims"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	authtx "github.com/cosmos/cosmos-sdk/x/auth/tx"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	"github.com/cosmos/gogoproto/proto"

	"defund/app"
	"defund/x/dex/types"
)

type Chain struct {
	App    *app.App
	DB     dbm.DB
	Height int64
	Time   time.Time
	TxCfg  client.TxConfig
	Users  []sdk.AccAddress
	keys   map[string]*secp256k1.PrivKey
}

// Plan is a replayable chain history.
type Plan struct {
	Genesis json.RawMessage
	GenTime time.Time
	Init    int64
	Blocks  []PlanBlock
}

type PlanBlock struct {
	Time time.Time
	Txs  [][]byte
}

// BlockResult is everything consensus can see of an executed block.
type BlockResult struct {
	Height  int64
	AppHash string
	Txs     []string // code|codespace|gaswanted|gasused|data|events
	Block   string   // block events, validator and parameter updates
	codes   []uint32
	gas     []int64
	spaces  []string
	logs    []string
	raw     *abci.ResponseFinalizeBlock
}

type appOpts map[string]any

func (o appOpts) Get(k string) any { return o[k] }

func openChain(db dbm.DB, opts ...func(*baseapp.BaseApp)) *Chain {
	opts = append(opts, baseapp.SetChainID("verif"))
	a := app.New(log.NewNopLogger(), db, nil, true, simtestutil.EmptyAppOptions{}, opts...)
	c := &Chain{App: a, DB: db, Height: a.LastBlockHeight(), TxCfg: authtx.NewTxConfig(a.AppCodec(), authtx.DefaultSignModes), keys: map[string]*secp256k1.PrivKey{}}
	return c
}

func (c *Chain) users(n int) {
	c.Users = nil
	for i := 0; i < n; i++ {
		k := userKey(i)
		c.Users = append(c.Users, userAddr(i))
		c.keys[userAddr(i).String()] = k
	}
}

func (c *Chain) initPlan(p *Plan) error {
	_, err := c.App.InitChain(&abci.RequestInitChain{ChainId: "verif", ConsensusParams: simtestutil.DefaultConsensusParams,
		AppStateBytes: p.Genesis, Time: p.GenTime, InitialHeight: p.Init})
	c.Time = p.GenTime
	c.Height = p.Init - 1
	return err
}

func evString(evs []abci.Event) string {
	var b strings.Builder
	for _, e := range evs {
		b.WriteString(e.Type)
		for _, a := range e.Attributes {
			fmt.Fprintf(&b, " %s=%s", a.Key, a.Value)
		}
		b.WriteByte(';')
	}
	return b.String()
}

// Finalize executes the next block without committing it.
func (c *Chain) Finalize(b PlanBlock) (*BlockResult, error) {
	res, err := c.App.FinalizeBlock(&abci.RequestFinalizeBlock{Height: c.Height + 1, Time: b.Time, Txs: b.Txs})
	if err != nil {
		return nil, err
	}
	r := &BlockResult{Height: c.Height + 1, AppHash: hex.EncodeToString(res.AppHash), raw: res}
	for _, t := range res.TxResults {
		r.Txs = append(r.Txs, fmt.Sprintf("code=%d space=%s wanted=%d used=%d data=%x events=%s", t.Code, t.Codespace, t.GasWanted, t.GasUsed, t.Data, evString(t.Events)))
		r.codes = append(r.codes, t.Code)
		r.gas = append(r.gas, t.GasUsed)
		r.spaces = append(r.spaces, t.Codespace)
		r.logs = append(r.logs, t.Log)
	}
	r.Block = evString(res.Events) + fmt.Sprint(res.ValidatorUpdates) + fmt.Sprint(res.ConsensusParamUpdates)
	return r, nil
}

func (c *Chain) Commit(b PlanBlock) error {
	_, err := c.App.Commit()
	if err == nil {
		c.Height++
		c.Time = b.Time
	}
	return err
}

// Step executes and commits one block; a panic or error in block execution is
// returned as an error.
func (c *Chain) Step(b PlanBlock) (r *BlockResult, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v %s", p, stackTop())
		}
	}()
	if r, err = c.Finalize(b); err != nil {
		return
	}
	err = c.Commit(b)
	return
}

// ReadCtx is a context over the last committed state.
func (c *Chain) ReadCtx() sdk.Context {
	return c.App.BaseApp.NewUncachedContext(false, cmtproto.Header{Height: c.Height, Time: c.Time, ChainID: "verif"})
}

func (c *Chain) Snap() *Snap { return takeSnap(c.App.DexKeeper, c.App.BankKeeper, c.ReadCtx()) }

// AccState reads an account's number and sequence.
func (c *Chain) AccState(a sdk.AccAddress) (num, seq uint64) {
	acc := c.App.AccountKeeper.GetAccount(c.ReadCtx(), a)
	if acc == nil {
		return 0, 0
	}
	return acc.GetAccountNumber(), acc.GetSequence()
}

type TxOpts struct {
	Gas    uint64
	Fee    sdk.Coins
	Keys   []*secp256k1.PrivKey // instead of the signers' own
	Seqs   map[string]uint64
	ChainI string
}

// signersOf lists the accounts which have to sign.
func signersOf(msgs []sdk.Msg) (out []string) {
	seen := map[string]bool{}
	for _, m := range msgs {
		s := signerOf(m)
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return
}

// BuildTx signs a transaction. seqs holds the sequence to use per account and
// is advanced.
func (c *Chain) BuildTx(msgs []sdk.Msg, o TxOpts) ([]byte, error) {
	b := c.TxCfg.NewTxBuilder()
	if err := b.SetMsgs(msgs...); err != nil {
		return nil, err
	}
	if o.Gas == 0 {
		o.Gas = 3_000_000
	}
	b.SetGasLimit(o.Gas)
	b.SetFeeAmount(o.Fee)
	mode := signing.SignMode_SIGN_MODE_DIRECT
	signers := signersOf(msgs)
	var sigs []signing.SignatureV2
	type sg struct {
		k        *secp256k1.PrivKey
		num, seq uint64
		addr     string
	}
	var ss []sg
	for i, s := range signers {
		k := c.keys[s]
		if i < len(o.Keys) && o.Keys[i] != nil {
			k = o.Keys[i]
		}
		if k == nil {
			k = userKey(0)
		}
		addr, err := sdk.AccAddressFromBech32(s)
		if err != nil {
			return nil, err
		}
		num, seq := c.AccState(addr)
		if v, ok := o.Seqs[s]; ok {
			seq = v
		}
		if o.Seqs != nil {
			o.Seqs[s] = seq + 1
		}
		ss = append(ss, sg{k, num, seq, s})
		sigs = append(sigs, signing.SignatureV2{PubKey: k.PubKey(), Data: &signing.SingleSignatureData{SignMode: mode}, Sequence: seq})
	}
	if err := b.SetSignatures(sigs...); err != nil {
		return nil, err
	}
	chainID := o.ChainI
	if chainID == "" {
		chainID = "verif"
	}
	for i, s := range ss {
		bz, err := authsigning.GetSignBytesAdapter(context.Background(), c.TxCfg.SignModeHandler(), mode, authsigning.SignerData{
			Address: s.addr, ChainID: chainID, AccountNumber: s.num, Sequence: s.seq, PubKey: s.k.PubKey()}, b.GetTx())
		if err != nil {
			return nil, err
		}
		sig, err := s.k.Sign(bz)
		if err != nil {
			return nil, err
		}
		sigs[i].Data = &signing.SingleSignatureData{SignMode: mode, Signature: sig}
	}
	if err := b.SetSignatures(sigs...); err != nil {
		return nil, err
	}
	return c.TxCfg.TxEncoder()(b.GetTx())
}

// Query asks through the consensus query interface.
func (c *Chain) Query(path string, height int64, req, resp proto.Message) (h int64, err error) {
	bz, err := proto.Marshal(req)
	if err != nil {
		return 0, err
	}
	r, err := c.App.Query(context.Background(), &abci.RequestQuery{Path: path, Data: bz, Height: height})
	if err != nil {
		return 0, err
	}
	if r.Code != 0 {
		return r.Height, fmt.Errorf("%s/%d: %s", r.Codespace, r.Code, r.Log)
	}
	if resp != nil {
		err = proto.Unmarshal(r.Value, resp)
	}
	return r.Height, err
}

// ---- chain histories --------------------------------------------------------

type ChainGen struct {
	P     *Profile
	G     *Gen
	R     *rand.Rand
	C     *Chain
	OneTx bool // at most one transaction per user and block
	Multi float64
	Low   float64 // probability of a low gas limit
	Gov   bool
	props uint64
	Bad   float64 // wrongly signed
	// Doomed is the probability that a transaction gets a last message which
	// fails; its other messages are tried again in later blocks.
	Doomed float64
	retry  [][]sdk.Msg
	// LastMsgs describes the transactions of the last block.
	LastMsgs [][]sdk.Msg
	LastOpts []TxOpts
	Trace    []string
}

func chainGenesis(p *Profile, r *rand.Rand, gov bool) (*app.App, GenesisOpts) {
	funds := sdk.NewCoins()
	amt := sm.NewIntWithDecimal(1, 33)
	if r.Intn(5) == 0 {
		amt = sm.NewIntWithDecimal(1, 10)
	}
	for _, d := range p.fundDenoms() {
		funds = funds.Add(sdk.NewCoin(d, amt))
	}
	dex := types.DefaultGenesis()
	dex.Params = p.Params
	return nil, GenesisOpts{NumUsers: p.Users, Coins: funds, Dex: dex, FastGov: gov}
}

// newChainGen starts a fresh chain with a random profile.
func newChainGen(seed int64, kind string, db dbm.DB, opts ...func(*baseapp.BaseApp)) (*ChainGen, *Plan) {
	r := rand.New(rand.NewSource(seed))
	p := newProfile(r, kind)
	if p.Params.TickPrecision > 3 {
		p.Params.TickPrecision = 3
	}
	_, o := chainGenesis(p, r, true)
	c := openChain(db, opts...)
	c.users(p.Users)
	bz, err := json.Marshal(buildGenesis(c.App, o))
	if err != nil {
		panic(err)
	}
	plan := &Plan{Genesis: bz, GenTime: genesisTime, Init: 1}
	if err := c.initPlan(plan); err != nil {
		panic(err)
	}
	g := &ChainGen{P: p, R: r, C: c, G: &Gen{P: p, R: r, U: c.Users}, Multi: 0.25, Low: 0.04, Gov: true}
	g.Trace = append(g.Trace, p.String())
	return g, plan
}

// NextBlock makes up the transactions of the next block.
// doom adds a message which fails.
func (g *ChainGen) doom(ms []sdk.Msg) []sdk.Msg {
	u := g.C.Users[g.R.Intn(len(g.C.Users))]
	return append(append([]sdk.Msg(nil), ms...), types.NewMsgCancelOrder(u, 1, 1<<40))
}

func (g *ChainGen) NextBlock() PlanBlock {
	r := g.R
	c := g.C
	b := PlanBlock{Time: c.Time.Add(g.P.Dt[r.Intn(len(g.P.Dt))])}
	g.LastMsgs, g.LastOpts = nil, nil
	seqs := map[string]uint64{}
	used := map[string]bool{}
	add := func(msgs []sdk.Msg, o TxOpts) {
		if g.OneTx {
			for _, s := range signersOf(msgs) {
				if used[s] {
					return
				}
			}
			for _, s := range signersOf(msgs) {
				used[s] = true
			}
		}
		o.Seqs = seqs
		bz, err := c.BuildTx(msgs, o)
		if err != nil {
			return
		}
		b.Txs = append(b.Txs, bz)
		g.LastMsgs = append(g.LastMsgs, msgs)
		g.LastOpts = append(g.LastOpts, o)
		var d []string
		for _, m := range msgs {
			d = append(d, fmt.Sprintf("%s{%v}", msgName(m), m))
		}
		g.Trace = append(g.Trace, fmt.Sprintf("h=%d t=%s tx gas=%d fee=%s %s", c.Height+1, b.Time.Format("15:04:05"), o.Gas, o.Fee, strings.Join(d, " & ")))
	}
	if c.Height < 1 {
		return b // the first block is empty: there is no committed state to read
	}
	s := c.Snap()
	if c.Height == 1 {
		var ms []sdk.Msg
		for i := 0; i < g.P.NPairs; i++ {
			ms = append(ms, types.NewMsgCreatePair(c.Users[0], g.P.Denoms[i%4], g.P.Denoms[(i+1)%4]))
		}
		add(ms, TxOpts{})
		return b
	}
	if c.Height == 2 || c.Height == 4 {
		for _, op := range []string{"pool", "ranged"} {
			if m := g.G.op(s, op); m != nil {
				add([]sdk.Msg{m}, TxOpts{})
			}
		}
	}
	var again [][]sdk.Msg
	for _, ms := range g.retry {
		if r.Intn(2) == 0 {
			again = append(again, ms)
			continue
		}
		add(ms, TxOpts{})
	}
	g.retry = again
	if g.Doomed > 0 && r.Intn(3) == 0 { // creations, some of which fail
		for i := 0; i < 2; i++ {
			m := types.NewMsgCreatePair(c.Users[r.Intn(len(c.Users))], fmt.Sprintf("new%d", r.Intn(1000)), g.P.Denoms[r.Intn(len(g.P.Denoms))])
			if r.Intn(2) == 0 {
				g.retry = append(g.retry, []sdk.Msg{m})
				add(g.doom([]sdk.Msg{m}), TxOpts{})
			} else {
				add([]sdk.Msg{m}, TxOpts{})
			}
		}
	}
	n := r.Intn(g.P.MaxMsgs + 1)
	for i := 0; i < n; i++ {
		var ms []sdk.Msg
		k := 1
		if r.Float64() < g.Multi {
			k = 2 + r.Intn(3)
		}
		for j := 0; j < k; j++ {
			if m := g.G.Next(s); m != nil && signerOf(m) != "" && c.keys[signerOf(m)] != nil {
				ms = append(ms, m)
			}
		}
		if len(ms) == 0 {
			continue
		}
		o := TxOpts{}
		if r.Float64() < g.Low {
			o.Gas = uint64(60_000 + r.Intn(240_000))
		}
		if r.Intn(4) == 0 {
			o.Fee = sdk.NewCoins(sdk.NewInt64Coin("stake", 1+r.Int63n(5000)))
		}
		if g.Doomed > 0 && r.Float64() < g.Doomed {
			g.retry = append(g.retry, ms)
			ms = g.doom(ms)
		}
		add(ms, o)
	}
	if g.Gov && r.Intn(8) == 0 {
		pp := s.Params
		q := randParams(r)
		if q.TickPrecision > 3 {
			q.TickPrecision = 3
		}
		q.TickPrecision = pp.TickPrecision
		q.FeeCollectorAddress, q.DustCollectorAddress = pp.FeeCollectorAddress, pp.DustCollectorAddress
		m, err := govv1.NewMsgSubmitProposal([]sdk.Msg{&types.MsgUpdateParams{Authority: govAuthority().String(), Params: q}},
			sdk.NewCoins(sdk.NewInt64Coin("stake", 100)), c.Users[0].String(), "m", "t", "s", false)
		if err == nil {
			g.props++
			v := govv1.NewMsgVote(c.Users[0], g.props, govv1.OptionYes, "")
			add([]sdk.Msg{m, v}, TxOpts{Gas: 5_000_000})
		}
	}
	return b
}

func (r *BlockResult) digest() string {
	h := sha256.New()
	fmt.Fprint(h, r.AppHash, r.Block)
	for _, t := range r.Txs {
		fmt.Fprint(h, "|", t)
	}
	return hex.EncodeToString(h.Sum(nil))
}

// diffResults says what two executions of a block disagree about.
func diffResults(a, b *BlockResult) string {
	var out []string
	if a.AppHash != b.AppHash {
		out = append(out, fmt.Sprintf("application hash %s / %s", a.AppHash[:16], b.AppHash[:min(16, len(b.AppHash))]))
	}
	if a.Block != b.Block {
		out = append(out, "block events: "+firstDiff(a.Block, b.Block))
	}
	if len(a.Txs) != len(b.Txs) {
		out = append(out, "number of results")
	} else {
		for i := range a.Txs {
			if a.Txs[i] != b.Txs[i] {
				out = append(out, fmt.Sprintf("tx %d: %s", i, firstDiff(a.Txs[i], b.Txs[i])))
			}
		}
	}
	return join(out, 4)
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("...%s / ...%s", clip(a[lo:], 160), clip(b[lo:], 160))
}

// storeDigest hashes the contents of every module store at the last committed
// height (independent of the tree hashing).
func (c *Chain) storeNames() []string {
	var out []string
	for _, k := range c.App.GetStoreKeys() {
		out = append(out, k.Name())
	}
	sort.Strings(out)
	return out
}

var _ = banktypes.ModuleName
