package main

// Checks about single transactions, judged by comparing the block that holds
// them with the same block without them on a second application opened over
// the same committed data (C13, C16, C26).

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	storetypes "cosmossdk.io/store/types"

	sm "cosmossdk.io/math"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	txtypes "github.com/cosmos/cosmos-sdk/types/tx"
	authsigning "github.com/cosmos/cosmos-sdk/x/auth/signing"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"

	"defund/x/dex/types"
)

// Fork opens a second application over the chain's committed data. It may
// execute one block (without committing it) before the chain commits again.
func (c *Chain) Fork() *Chain {
	f := openChain(c.DB)
	f.Height, f.Time, f.Users, f.keys = c.Height, c.Time, c.Users, c.keys
	return f
}

// tryFinalize executes a block on a fork and reports panics as errors.
func (c *Chain) tryFinalize(b PlanBlock) (r *BlockResult, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v %s", p, stackTop())
		}
	}()
	return c.Finalize(b)
}

// txInfo is what the surroundings of a transaction's messages say.
type txInfo struct {
	msgs []sdk.Msg
	gas  uint64
	fee  sdk.Coins
	seqs map[string]uint64
}

func (c *Chain) decodeTx(bz []byte) (*txInfo, error) {
	tx, err := c.TxCfg.TxDecoder()(bz)
	if err != nil {
		return nil, err
	}
	st, ok := tx.(authsigning.Tx)
	if !ok {
		return nil, fmt.Errorf("unexpected kind of transaction")
	}
	i := &txInfo{msgs: tx.GetMsgs(), gas: st.GetGas(), fee: st.GetFee(), seqs: map[string]uint64{}}
	sigs, err := st.GetSignaturesV2()
	if err != nil {
		return nil, err
	}
	for k, s := range signersOf(i.msgs) {
		if k < len(sigs) {
			i.seqs[s] = sigs[k].Sequence
		}
	}
	return i, nil
}

// nothingTx is a transaction with the same signers, sequences and fee which is
// certain to fail in a way that has nothing to do with the exchange.
func (c *Chain) nothingTx(signers []string, fee sdk.Coins, seqs map[string]uint64) ([]byte, error) {
	var ms []sdk.Msg
	to := userAddr(0)
	for _, s := range signers {
		a, err := sdk.AccAddressFromBech32(s)
		if err != nil {
			return nil, err
		}
		ms = append(ms, banktypes.NewMsgSend(a, to, sdk.NewCoins(sdk.NewCoin("nosuchcoin", sm.NewIntWithDecimal(1, 60)))))
	}
	q := map[string]uint64{}
	for k, v := range seqs {
		q[k] = v
	}
	return c.BuildTx(ms, TxOpts{Gas: 1_000_000, Fee: fee, Seqs: q})
}

// withoutFailures is the block with every failed transaction replaced by one
// that does nothing but pay the same fee, or left out if it paid none. keep
// maps the transactions of the new block to those of the old one.
func (c *Chain) withoutFailures(b PlanBlock, r *BlockResult) (out PlanBlock, keep []int, replaced, dropped int, err error) {
	out.Time = b.Time
	for i, tx := range b.Txs {
		if r.codes[i] == 0 {
			out.Txs = append(out.Txs, tx)
			keep = append(keep, i)
			continue
		}
		if len(r.raw.TxResults[i].Events) == 0 { // refused before it was charged
			dropped++
			continue
		}
		in, e := c.decodeTx(tx)
		if e != nil {
			return out, nil, 0, 0, e
		}
		no, e := c.nothingTx(signersOf(in.msgs), in.fee, in.seqs)
		if e != nil {
			return out, nil, 0, 0, e
		}
		out.Txs = append(out.Txs, no)
		keep = append(keep, -1)
		replaced++
	}
	return
}

// sameButFailures compares two executions.
func sameButFailures(r, f *BlockResult, keep []int, main, fork *Chain) string {
	var out []string
	for j, i := range keep {
		if i < 0 {
			if f.codes[j] == 0 || len(f.raw.TxResults[j].Events) == 0 {
				out = append(out, fmt.Sprintf("the replacement of a failed transaction behaves differently (code %d %s)", f.codes[j], clip(f.logs[j], 200)))
			}
			continue
		}
		if r.Txs[i] != f.Txs[j] {
			out = append(out, fmt.Sprintf("tx %d: %s", i, firstDiff(r.Txs[i], f.Txs[j])))
		}
	}
	if r.Block != f.Block {
		out = append(out, "block events: "+firstDiff(r.Block, f.Block))
	}
	if r.AppHash != f.AppHash {
		out = append(out, fmt.Sprintf("application hash %s / %s", r.AppHash[:16], f.AppHash[:16]))
		a, b := main.Snap(), fork.Snap()
		out = append(out, snapDiff(b, a)...)
	}
	return join(out, 8)
}

func msgsString(ms []sdk.Msg) string {
	var d []string
	for _, m := range ms {
		d = append(d, fmt.Sprintf("%s{%v}", msgName(m), m))
	}
	return clip(strings.Join(d, " & "), 1200)
}

// c13Chain: a block with failed transactions has to end like the block where
// those transactions did nothing.
func c13Chain(idx int, seed int64, tier string, rep *Reporter) {
	g, _ := newChainGen(seed, chainKinds[idx%len(chainKinds)], dbm.NewMemDB())
	g.Multi, g.Low, g.Doomed = 0.5, 0.15, 0.25
	c := g.C
	blocks := 16
	// The twin never sees the messages of failed transactions, only others that
	// do nothing in their place: also what failures leave in memory shows.
	var f *Chain
	judged := 0
	dig := ""
	for c.Height < int64(blocks) {
		// A multi-message transaction cut short at many gas limits.
		if c.Height >= 4 && c.Height%5 == 0 {
			gasSweep(g, "C13", rep, 7)
		}
		b := g.NextBlock()
		rep.curTrace = g.Trace
		r, err := c.tryFinalize(b)
		if err != nil {
			rep.Count("chain_halts", 1)
			rep.Halts = append(rep.Halts, clip(err.Error(), 300))
			return
		}
		dig += r.AppHash
		for i := range b.Txs {
			if strings.Contains(r.logs[i], "runtime error") || strings.Contains(r.logs[i], "recovered:") && r.spaces[i] == "sdk" && r.codes[i] == 111222 {
				rep.Count("tx_panics", 1)
			}
		}
		nf := 0
		for _, code := range r.codes {
			if code != 0 {
				nf++
			}
		}
		if f == nil && c.Height >= 1 {
			f = c.Fork()
		}
		if f != nil {
			b2, keep, repl, drop, err := c.withoutFailures(b, r)
			var r2 *BlockResult
			if err == nil {
				r2, err = f.tryFinalize(b2)
			}
			if err != nil {
				rep.Count("fork_failed", 1)
				f = nil
			} else {
				if bad := sameButFailures(r, r2, keep, c, f); bad != "" {
					rep.Violate("C13", "failed-tx-effect", "height %d: a block with failed transactions ends differently from the block where they (and all earlier ones) do nothing (with / without): %s", c.Height+1, bad)
					f = nil
				} else if f.Commit(b2) != nil {
					f = nil
				}
				if nf > 0 {
					judged++
					rep.Count("blocks_judged", 1)
				}
				rep.Count("failed_txs_replaced", int64(repl))
				rep.Count("failed_txs_dropped", int64(drop))
			}
		}
		if c.Commit(b) != nil {
			return
		}
		rep.Steps++
	}
	rep.Case(dig, judged > 0, func() string { return joinLines(g.Trace, 20) })
}

// freshMsgs makes up k messages of the present state.
func (g *ChainGen) freshMsgs(k int) (ms []sdk.Msg) {
	s := g.C.Snap()
	for try := 0; try < 4*k && len(ms) < k; try++ {
		if m := g.G.Next(s); m != nil && signerOf(m) != "" && g.C.keys[signerOf(m)] != nil {
			ms = append(ms, m)
		}
	}
	return
}

const sweepGas = 2_000_000 // its encoding is as long as that of every limit from 16384 up

// gasSweep runs a transaction of several messages at limits below what it
// needs: each of those runs has to end like a transaction that does nothing.
func gasSweep(g *ChainGen, prop string, rep *Reporter, points int) {
	sweep(g, prop, rep, points, nil, func() []sdk.Msg { return g.freshMsgs(1 + g.R.Intn(4)) }, 0)
}

// sweep is gasSweep on forks prepared by prep, with the given messages, at
// limits down to span below the need (0: all the way down).
func sweep(g *ChainGen, prop string, rep *Reporter, points int, prep func(*Chain), mk func() []sdk.Msg, span int64) {
	c, r := g.C, g.R
	fork := func() *Chain {
		f := c.Fork()
		if prep != nil {
			prep(f)
		}
		return f
	}
	var ms []sdk.Msg
	var ok *BlockResult
	var U int64
	tm := c.Time.Add(g.P.Dt[r.Intn(len(g.P.Dt))])
	run := func(ms []sdk.Msg, gas uint64) (*BlockResult, *Chain) {
		f := fork()
		bz, err := f.BuildTx(ms, TxOpts{Gas: gas})
		if err != nil {
			return nil, nil
		}
		res, err := f.tryFinalize(PlanBlock{Time: tm, Txs: [][]byte{bz}})
		if err != nil {
			return nil, nil
		}
		return res, f
	}
	for try := 0; try < 6; try++ {
		ms = mk()
		if len(ms) == 0 {
			return
		}
		// Not all messages go together: find a set which succeeds.
		if res, _ := run(ms, sweepGas); res != nil && res.codes[0] == 0 {
			ok, U = res, res.gas[0]
			break
		}
	}
	if ok == nil || U < 20_000 || U >= sweepGas {
		return
	}
	rep.Count("sweeps", 1)
	// exactly enough
	if res, _ := run(ms, uint64(U)); res != nil {
		if res.codes[0] != 0 || res.AppHash != ok.AppHash {
			rep.Violate(prop, "exact-gas", "a transaction which used %d gas ends differently with that limit (code %d, hash %s / %s): %s", U, res.codes[0], res.AppHash[:12], ok.AppHash[:12], msgsString(ms))
		}
	}
	signers := signersOf(ms)
	var nop *BlockResult
	var nopF *Chain
	{
		nopF = fork()
		seqs := map[string]uint64{}
		for _, s := range signers {
			a, _ := sdk.AccAddressFromBech32(s)
			_, seqs[s] = nopF.AccState(a)
		}
		bz, err := c.nothingTx(signers, nil, seqs)
		if err != nil {
			return
		}
		if nop, err = nopF.tryFinalize(PlanBlock{Time: tm, Txs: [][]byte{bz}}); err != nil || nop.codes[0] == 0 || len(nop.raw.TxResults[0].Events) == 0 {
			return
		}
	}
	var empty *BlockResult
	for p := 0; p < points; p++ {
		var L int64
		switch p {
		case 0:
			L = U - 1
		case 1:
			L = U - 1 - r.Int63n(2000)
		default:
			L = U - 1 - r.Int63n(max(1, U-45_000))
			if span > 0 {
				L = U - 1 - r.Int63n(span)
			}
		}
		if L < 16_400 {
			L = 16_400
		}
		res, f := run(ms, uint64(L))
		if res == nil {
			continue
		}
		rep.Count("sweep_points", 1)
		if res.codes[0] == 0 {
			rep.Violate(prop, "gas-not-enforced", "a transaction that uses %d gas succeeds with a limit of %d: %s", U, L, msgsString(ms))
			continue
		}
		want, wf := nop, nopF
		if len(res.raw.TxResults[0].Events) == 0 {
			if empty == nil {
				e := fork()
				var err error
				if empty, err = e.tryFinalize(PlanBlock{Time: tm}); err != nil {
					return
				}
				wf = e
			}
			want = empty
		}
		if res.AppHash != want.AppHash || res.Block != want.Block {
			d := []string{}
			if res.AppHash != want.AppHash {
				d = append(snapDiff(wf.Snap(), f.Snap()), storeDiff(wf, f)...)
			}
			rep.Violate(prop, "out-of-gas-effect", "a transaction which ran out of gas at limit %d (of %d needed, code %d) left a trace: %s %s; messages: %s", L, U, res.codes[0], join(d, 6), firstDiff(want.Block, res.Block), msgsString(ms))
		}
	}
}

// ---- C16: transactions that are not rightfully signed -------------------------

type forgery struct {
	what    string
	charged string // the account which pays for it (and whose sequence moves), if any
	tx      []byte
	msgs    []sdk.Msg
}

// forge makes one transaction which acts for somebody who did not sign it.
func (g *ChainGen) forge(s *Snap, seqs map[string]uint64) *forgery {
	c, r := g.C, g.R
	victim := g.G.user()
	attacker := g.G.user()
	if victim.Equals(attacker) {
		return nil
	}
	// a message of the victim
	var m sdk.Msg
	for try := 0; try < 30; try++ {
		k := g.G.Next(s)
		if k != nil && signerOf(k) != "" && c.keys[signerOf(k)] != nil {
			m = k
			v, _ := sdk.AccAddressFromBech32(signerOf(k))
			victim = v
			if !victim.Equals(attacker) {
				break
			}
		}
	}
	if m == nil || victim.Equals(attacker) {
		return nil
	}
	num, seq := c.AccState(victim)
	_ = num
	if v, ok := seqs[victim.String()]; ok {
		seq = v
	}
	akey := c.keys[attacker.String()]
	private := func() map[string]uint64 { return map[string]uint64{victim.String(): seq} }
	asAttacker := func(ms []sdk.Msg, what string) *forgery {
		o := TxOpts{Seqs: seqs, Gas: 2_500_000}
		bz, err := c.BuildTx(ms, o)
		if err != nil {
			return nil
		}
		return &forgery{what: what, charged: attacker.String(), tx: bz, msgs: ms}
	}
	mk := func(ms []sdk.Msg, o TxOpts, what string) *forgery {
		o.Gas = 2_500_000
		bz, err := c.BuildTx(ms, o)
		if err != nil {
			return nil
		}
		return &forgery{what: what, tx: bz, msgs: ms}
	}
	switch r.Intn(11) {
	case 0:
		return mk([]sdk.Msg{m}, TxOpts{Seqs: private(), Keys: []*secp256k1.PrivKey{akey}}, "signed with another account's key")
	case 1:
		return mk([]sdk.Msg{m}, TxOpts{Seqs: private(), ChainI: "other-chain"}, "signed for another chain")
	case 2:
		q := private()
		q[victim.String()] = seq + 1 + uint64(r.Intn(3))
		return mk([]sdk.Msg{m}, TxOpts{Seqs: q}, "with a future sequence")
	case 3:
		// what is only used within this block may still fail before it counts
		_, used := c.AccState(victim)
		if used == 0 {
			return nil
		}
		q := private()
		q[victim.String()] = uint64(r.Intn(int(used)))
		return mk([]sdk.Msg{m}, TxOpts{Seqs: q}, "with a used sequence")
	case 4: // the body is exchanged after signing
		a := mk([]sdk.Msg{m}, TxOpts{Seqs: private()}, "")
		k := g.G.Next(s)
		if a == nil || k == nil || signerOf(k) != victim.String() {
			k = types.NewMsgCancelAllOrders(victim, nil)
		}
		q := private()
		b := mk([]sdk.Msg{k}, TxOpts{Seqs: q}, "")
		if a == nil || b == nil || string(a.tx) == string(b.tx) {
			return nil
		}
		bz, err := swapBody(a.tx, b.tx)
		if err != nil || string(bz) == string(b.tx) || string(bz) == string(a.tx) {
			return nil
		}
		return &forgery{what: "whose messages were exchanged after signing", tx: bz, msgs: []sdk.Msg{k}}
	case 5: // two accounts act, only one signs
		k := types.NewMsgCancelAllOrders(attacker, nil)
		return mk([]sdk.Msg{k, m}, TxOpts{Seqs: map[string]uint64{victim.String(): seq, attacker.String(): seqOf(c, seqs, attacker)}, Keys: []*secp256k1.PrivKey{akey, akey}}, "with the other signer's signature forged")
	case 6: // no signature at all
		b := c.TxCfg.NewTxBuilder()
		if b.SetMsgs(m) != nil {
			return nil
		}
		b.SetGasLimit(2_500_000)
		bz, err := c.TxCfg.TxEncoder()(b.GetTx())
		if err != nil {
			return nil
		}
		return &forgery{what: "without a signature", tx: bz, msgs: []sdk.Msg{m}}
	case 7: // parameters, in the name of the governance authority
		pp := s.Params
		pp.WithdrawFeeRate = dec("0.33")
		ms := []sdk.Msg{&types.MsgUpdateParams{Authority: govAuthority().String(), Params: pp}}
		return mk(ms, TxOpts{Seqs: map[string]uint64{govAuthority().String(): 0}, Keys: []*secp256k1.PrivKey{akey}}, "changing parameters in the name of the authority")
	case 8: // parameters, by the attacker himself
		pp := s.Params
		pp.WithdrawFeeRate = dec("0.33")
		return asAttacker([]sdk.Msg{&types.MsgUpdateParams{Authority: attacker.String(), Params: pp}}, "changing parameters as an ordinary user")
	case 9: // on behalf of the victim, without a grant
		e := authz.NewMsgExec(attacker, []sdk.Msg{m})
		return asAttacker([]sdk.Msg{&e}, "executing a message of another account without a grant")
	default: // a proposal which would act for the victim
		p, err := govv1.NewMsgSubmitProposal([]sdk.Msg{m}, sdk.NewCoins(sdk.NewInt64Coin("stake", 100)), attacker.String(), "m", "t", "s", false)
		if err != nil {
			return nil
		}
		return asAttacker([]sdk.Msg{p}, "proposing to act for another account")
	}
}

func seqOf(c *Chain, seqs map[string]uint64, a sdk.AccAddress) uint64 {
	if v, ok := seqs[a.String()]; ok {
		return v
	}
	_, q := c.AccState(a)
	return q
}

// c16Forge: a block with such transactions has to end like the block without.
func c16Forge(idx int, seed int64, tier string, rep *Reporter) {
	kind := []string{"mixed", "cancel", "orders", "mm"}[idx%4]
	g, _ := newChainGen(seed, kind, dbm.NewMemDB())
	g.Gov = idx%3 == 0
	c, r := g.C, g.R
	dig, judged := "", 0
	for c.Height < 16 {
		b := g.NextBlock()
		rep.curTrace = g.Trace
		if c.Height >= 3 {
			// sequences after the honest transactions
			seqs := map[string]uint64{}
			for _, tx := range b.Txs {
				if in, err := c.decodeTx(tx); err == nil {
					for s, q := range in.seqs {
						seqs[s] = q + 1
					}
				}
			}
			s := c.Snap()
			with := PlanBlock{Time: b.Time, Txs: append([][]byte{}, b.Txs...)}
			without := PlanBlock{Time: b.Time, Txs: append([][]byte{}, b.Txs...)}
			var fs []*forgery
			for k := 0; k < 6; k++ {
				f := g.forge(s, seqs)
				if f == nil || f.tx == nil {
					continue
				}
				if f.charged != "" {
					no, err := c.nothingTx([]string{f.charged}, nil, map[string]uint64{f.charged: seqs[f.charged] - 1})
					if err != nil {
						continue
					}
					without.Txs = append(without.Txs, no)
				}
				fs = append(fs, f)
				with.Txs = append(with.Txs, f.tx)
			}
			f1, f2 := c.Fork(), c.Fork()
			r2, e2 := f2.tryFinalize(without)
			// a transaction that was already executed, once more
			if len(b.Txs) > 0 && e2 == nil {
				k := r.Intn(len(b.Txs))
				if len(r2.raw.TxResults[k].Events) > 0 {
					fs = append(fs, &forgery{what: "executed before", tx: b.Txs[k]})
					with.Txs = append(with.Txs, b.Txs[k])
				}
			}
			r1, e1 := f1.tryFinalize(with)
			if e1 == nil && e2 == nil && len(fs) > 0 {
				ok := true
				for i, f := range fs {
					k := len(b.Txs) + i
					rep.Count("forged_txs", 1)
					rep.Count("forged: "+f.what, 1)
					if r1.codes[k] == 0 {
						ok = false
						rep.Violate("C16", "forged-tx-accepted", "height %d: a transaction %s was accepted: %s", c.Height+1, f.what, msgsString(f.msgs))
					}
				}
				if ok && r1.AppHash != r2.AppHash {
					rep.Violate("C16", "forged-tx-effect", "height %d: rejected transactions that were not rightfully signed left a trace: %s (%s)", c.Height+1,
						join(snapDiff(f2.Snap(), f1.Snap()), 6), describeForgeries(fs))
				}
				judged++
				rep.Count("forged_blocks", 1)
			}
		}
		res, err := c.Step(b)
		if err != nil {
			rep.Count("chain_halts", 1)
			return
		}
		dig += res.AppHash
		rep.Steps++
	}
	rep.Case(dig, judged > 0, func() string { return joinLines(g.Trace, 12) })
}

// swapBody puts the messages of one transaction under the signatures of another.
func swapBody(signed, body []byte) ([]byte, error) {
	var a, b txtypes.TxRaw
	if err := a.Unmarshal(signed); err != nil {
		return nil, err
	}
	if err := b.Unmarshal(body); err != nil {
		return nil, err
	}
	a.BodyBytes = b.BodyBytes
	return a.Marshal()
}

func describeForgeries(fs []*forgery) string {
	var d []string
	for _, f := range fs {
		d = append(d, f.what)
	}
	return strings.Join(d, ", ")
}

// storeDiff names the raw entries two applications' working states disagree
// about.
func storeDiff(a, b *Chain) (out []string) {
	ca, cb := a.ReadCtx(), b.ReadCtx()
	for _, k := range a.App.GetStoreKeys() {
		kv, ok := k.(*storetypes.KVStoreKey)
		if !ok {
			continue
		}
		var kb storetypes.StoreKey
		for _, x := range b.App.GetStoreKeys() {
			if x.Name() == kv.Name() {
				kb = x
			}
		}
		m := map[string]string{}
		for it := ca.KVStore(kv).Iterator(nil, nil); it.Valid(); it.Next() {
			m[string(it.Key())] = string(it.Value())
		}
		for it := cb.KVStore(kb).Iterator(nil, nil); it.Valid(); it.Next() {
			v, ok := m[string(it.Key())]
			delete(m, string(it.Key()))
			if !ok {
				out = append(out, fmt.Sprintf("%s: only second has %x", kv.Name(), it.Key()))
			} else if v != string(it.Value()) {
				out = append(out, fmt.Sprintf("%s: %x is %q / %q", kv.Name(), it.Key(), clip(v, 100), clip(string(it.Value()), 100)))
			}
		}
		for k := range m {
			out = append(out, fmt.Sprintf("%s: only first has %x", kv.Name(), k))
		}
	}
	sort.Strings(out)
	return
}

// ---- C26 ------------------------------------------------------------------------

// Before is called by the driver ahead of every message.
type beforeMsg interface {
	Before(w *World, msg sdk.Msg)
}

const (
	gasNone = iota
	gasOrder
	gasDeposit
	gasWithdraw
)

var gasNames = []string{"none", "order", "deposit", "withdraw"}

func gasKind(m sdk.Msg) int {
	switch m.(type) {
	case *types.MsgLimitOrder, *types.MsgMarketOrder, *types.MsgMMOrder:
		return gasOrder
	case *types.MsgDeposit:
		return gasDeposit
	case *types.MsgWithdraw:
		return gasWithdraw
	}
	return gasNone
}

// gasMon runs messages in scratch contexts under different parameters.
type gasMon struct {
	R   *Reporter
	rnd *rand.Rand
	p   float64
}

func (m *gasMon) Observe(w *World, st *Step, pre, post *Snap) {}

type gasRun struct {
	gas uint64
	err error
	oog bool
	pan string
}

// measure runs one message with the given extras and, if limit is positive,
// gas limit.
func measure(w *World, msg sdk.Msg, extra [3]uint64, limit uint64) (g gasRun) {
	cctx, _ := w.Ctx.CacheContext()
	pp := w.Prev.Params
	pp.OrderExtraGas, pp.DepositExtraGas, pp.WithdrawExtraGas = extra[0], extra[1], extra[2]
	w.App.DexKeeper.SetParams(cctx.WithGasMeter(storetypes.NewInfiniteGasMeter()), pp)
	gm := storetypes.NewInfiniteGasMeter()
	if limit > 0 {
		gm = storetypes.NewGasMeter(limit)
	}
	cctx = cctx.WithGasMeter(gm)
	defer func() {
		g.gas = gm.GasConsumed()
		if p := recover(); p != nil {
			switch p.(type) {
			case storetypes.ErrorOutOfGas:
				g.oog = true
			default:
				g.pan = fmt.Sprint(p)
			}
			g.err = fmt.Errorf("panic: %v", p)
		}
	}()
	if vb, ok := msg.(validateBasic); ok {
		if g.err = vb.ValidateBasic(); g.err != nil {
			return
		}
	}
	h := w.App.MsgServiceRouter().Handler(msg)
	_, g.err = h(cctx, msg)
	return
}

// sameDigits draws a number with d decimal digits: parameters are stored as
// text, so that reading them costs the same.
func sameDigits(r *rand.Rand, d int) uint64 {
	lo, hi := uint64(0), uint64(10)
	for i := 1; i < d; i++ {
		lo, hi = hi, hi*10
	}
	return lo + uint64(r.Int63n(int64(hi-lo)))
}

func (m *gasMon) Before(w *World, msg sdk.Msg) {
	kind := gasKind(msg)
	if kind == gasNone || m.rnd.Float64() > m.p {
		return
	}
	d := 1 + m.rnd.Intn(9)
	base := [3]uint64{sameDigits(m.rnd, d), sameDigits(m.rnd, d), sameDigits(m.rnd, d)}
	b := measure(w, msg, base, 0)
	if b.err != nil {
		m.R.Count("rejected_not_judged", 1)
		return
	}
	m.R.Count("accepted:"+gasNames[kind], 1)
	other := base
	for i := range other {
		for other[i] == base[i] {
			other[i] = sameDigits(m.rnd, d)
		}
	}
	for i := 0; i < 3; i++ {
		v := base
		v[i] = other[i]
		g := measure(w, msg, v, 0)
		m.R.Count("gas_differences", 1)
		if g.err != nil {
			m.R.Violate("C26", "outcome-depends-on-extra", "%s is accepted with the extra gas %v and rejected with %v although gas is unlimited: %v", msgName(msg), base, v, g.err)
			continue
		}
		want := int64(0)
		if i+1 == kind {
			want = int64(v[i]) - int64(base[i])
		}
		if got := int64(g.gas) - int64(b.gas); got != want {
			m.R.Violate("C26", "extra-gas:"+gasNames[kind], "%s {%v} used %d gas with the extra gas of %s at %d and %d gas with it at %d; the difference should be %d",
				msgName(msg), msg, b.gas, gasNames[i+1], base[i], g.gas, v[i], want)
		}
	}
	if base[kind-1] > b.gas {
		m.R.Violate("C26", "extra-gas:"+gasNames[kind], "%s used %d gas although the extra alone is %d", msgName(msg), b.gas, base[kind-1])
	}
	if b.gas > 0 {
		if g := measure(w, msg, base, b.gas); g.err != nil {
			m.R.Violate("C26", "limit", "%s used %d gas but fails with exactly that limit: %v", msgName(msg), b.gas, g.err)
		}
		short := uint64(1)
		if e := base[kind-1]; e > 0 {
			short += uint64(m.rnd.Int63n(int64(e)))
		}
		if short < b.gas {
			m.R.Count("limits_below_need", 1)
			if g := measure(w, msg, base, b.gas-short); !g.oog {
				m.R.Violate("C26", "limit", "%s needs %d gas (extra %d) but a limit of %d did not stop it (%v)", msgName(msg), b.gas, base[kind-1], b.gas-short, g.err)
			}
		}
	}
}

func c26Scenario(kind string) func(int, int64, string, *Reporter) {
	return func(idx int, seed int64, tier string, rep *Reporter) {
		m := &gasMon{R: rep, rnd: rand.New(rand.NewSource(subSeed(seed, "gas"))), p: 0.35}
		w := RunScenario(seed, kind, rep, m)
		rep.Case(w.digest(), rep.Counts["gas_differences"] > 0, func() string { return joinLines(w.Trace, 15) })
	}
}

// c26Chain: whole transactions under different extras.
func c26Chain(idx int, seed int64, tier string, rep *Reporter) {
	g, _ := newChainGen(seed, chainKinds[idx%len(chainKinds)], dbm.NewMemDB())
	c, r := g.C, g.R
	g.Low = 0
	dig := ""
	requests := func() (ms []sdk.Msg) {
		k := 1 + r.Intn(4)
		for try := 0; try < 10 && len(ms) < k; try++ {
			for _, m := range g.freshMsgs(1) {
				if gasKind(m) == gasNone && r.Intn(3) > 0 {
					continue
				}
				if r.Intn(5) == 0 { // through an authorisation, which its owner does not need
					a, _ := sdk.AccAddressFromBech32(signerOf(m))
					e := authz.NewMsgExec(a, []sdk.Msg{m})
					m = &e
				}
				ms = append(ms, m)
			}
		}
		return
	}
	count := func(ms []sdk.Msg) (n [3]int64) {
		var one func(m sdk.Msg)
		one = func(m sdk.Msg) {
			if e, ok := m.(*authz.MsgExec); ok {
				in, err := e.GetMessages()
				if err == nil {
					for _, x := range in {
						one(x)
					}
				}
				return
			}
			if k := gasKind(m); k != gasNone {
				n[k-1]++
			}
		}
		for _, m := range ms {
			one(m)
		}
		return
	}
	setExtra := func(e [3]uint64) func(*Chain) {
		return func(f *Chain) {
			ctx := f.ReadCtx()
			pp := f.App.DexKeeper.GetParams(ctx)
			pp.OrderExtraGas, pp.DepositExtraGas, pp.WithdrawExtraGas = e[0], e[1], e[2]
			f.App.DexKeeper.SetParams(ctx, pp)
		}
	}
	judged := 0
	for c.Height < 14 {
		if c.Height >= 3 {
			d := 1 + r.Intn(5)
			ex := func() [3]uint64 { return [3]uint64{sameDigits(r, d), sameDigits(r, d), sameDigits(r, d)} }
			var ms []sdk.Msg
			run := func(e [3]uint64) *BlockResult {
				f := c.Fork()
				setExtra(e)(f)
				bz, err := f.BuildTx(ms, TxOpts{Gas: sweepGas})
				if err != nil {
					return nil
				}
				res, err := f.tryFinalize(PlanBlock{Time: c.Time.Add(1e9), Txs: [][]byte{bz}})
				if err != nil {
					return nil
				}
				return res
			}
			e1, e2 := ex(), ex()
			for try := 0; try < 4; try++ {
				ms = requests()
				n := count(ms)
				if len(ms) == 0 || n == [3]int64{} {
					continue
				}
				a := run(e1)
				if a == nil || a.codes[0] != 0 {
					continue
				}
				b := run(e2)
				if b == nil {
					continue
				}
				judged++
				rep.Count("tx_gas_differences", 1)
				want := int64(0)
				for i := range n {
					want += n[i] * (int64(e2[i]) - int64(e1[i]))
				}
				if b.codes[0] != 0 || b.gas[0]-a.gas[0] != want {
					rep.Violate("C26", "tx-extra-gas", "a transaction with %v orders, deposits and withdrawals used %d gas with the extras %v and %d (code %d) with %v; the difference should be %d: %s",
						n, a.gas[0], e1, b.gas[0], b.codes[0], e2, want, msgsString(ms))
				}
				// limits inside the extra
				keep := ms
				span := int64(0)
				for i := range n {
					span += n[i] * int64(e1[i])
				}
				if span > 0 && r.Intn(2) == 0 {
					sweep(g, "C26", rep, 3, setExtra(e1), func() []sdk.Msg { return keep }, span)
				}
				break
			}
		}
		b := g.NextBlock()
		rep.curTrace = g.Trace
		res, err := c.Step(b)
		if err != nil {
			rep.Count("chain_halts", 1)
			return
		}
		dig += res.AppHash
		rep.Steps++
	}
	rep.Case(dig, judged > 0, func() string { return joinLines(g.Trace, 12) })
}

func init() {
	kinds := map[string][2]int{"mixed": {48, 1200}, "orders": {24, 600}, "pools": {32, 800}, "mm": {16, 400}}
	c := &Check{Prop: "C26", Level: "exploration",
		Rule:        "A case is either one random history in which messages are tried, before they are delivered, on copies of the state that differ in one of the extra gas settings or in the gas limit, or one chain whose transactions are executed on forks that differ in them; non-trivial when at least one accepted message of these kinds was compared.",
		MinObserved: map[string]int64{"gas_differences": 1000, "limits_below_need": 200, "tx_gas_differences": 50, "sweep_points": 20, "accepted:order": 100, "accepted:deposit": 30, "accepted:withdraw": 15},
	}
	for _, k := range sortedKeys(kinds) {
		c.Families = append(c.Families, &Family{Name: "scenario-" + k, N: n(kinds[k][0], kinds[k][1]), Run: c26Scenario(k)})
	}
	c.Families = append(c.Families, &Family{Name: "txs", N: n(24, 600), Run: c26Chain})
	register(c)
}
