package main

import (
	"sort"
	"strconv"
	"strings"
	"time"

	sm "cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/types"
)

// The exchange's events, as the records and balances of the step imply them
// (C24). Every attribute is compared; additional attributes and event types the
// module does not have today are left alone.

type wantEvent struct {
	typ   string
	attrs map[string]string
}

var dexEvents = map[string]bool{
	types.EventTypeCreatePair: true, types.EventTypeCreatePool: true, types.EventTypeCreateRangedPool: true,
	types.EventTypeDeposit: true, types.EventTypeWithdraw: true, types.EventTypeLimitOrder: true, types.EventTypeMarketOrder: true,
	types.EventTypeMMOrder: true, types.EventTypeCancelOrder: true, types.EventTypeCancelAllOrders: true,
	types.EventTypeDepositResult: true, types.EventTypeWithdrawalResult: true, types.EventTypeOrderResult: true,
	types.EventTypeUserOrderMatched: true, types.EventTypePoolOrderMatched: true,
}

func u64s(v uint64) string { return strconv.FormatUint(v, 10) }

func orderResultEvent(o types.Order) wantEvent {
	return wantEvent{types.EventTypeOrderResult, map[string]string{
		types.AttributeKeyOrderDirection: o.Direction.String(), types.AttributeKeyOrderer: o.Orderer,
		types.AttributeKeyPairId: u64s(o.PairId), types.AttributeKeyOrderId: u64s(o.Id),
		types.AttributeKeyAmount: o.Amount.String(), types.AttributeKeyOpenAmount: o.OpenAmount.String(),
		types.AttributeKeyOfferCoin: o.OfferCoin.String(), types.AttributeKeyRemainingOfferCoin: o.RemainingOfferCoin.String(),
		types.AttributeKeyReceivedCoin: o.ReceivedCoin.String(), types.AttributeKeyStatus: o.Status.String()}}
}

// idSet normalises a comma separated list of numbers.
func idSet(s string) string {
	f := strings.Split(s, ",")
	sort.Strings(f)
	return strings.Join(f, ",")
}

func (m *DexMon) wantTxEvents(st *Step, pre, post *Snap) (out []wantEvent) {
	add := func(typ string, kv ...string) {
		a := map[string]string{}
		for i := 0; i+1 < len(kv); i += 2 {
			a[kv[i]] = kv[i+1]
		}
		out = append(out, wantEvent{typ, a})
	}
	order := func(typ string, pid uint64, offer sdk.Coin) {
		k := ID2{pid, pre.Pairs[pid].LastOrderId + 1}
		o, ok := post.Ord[k]
		if !ok {
			return // judged elsewhere
		}
		refund := sdk.Coin{Denom: offer.Denom, Amount: offer.Amount.Sub(o.OfferCoin.Amount)}
		add(typ, types.AttributeKeyOrderer, o.Orderer, types.AttributeKeyPairId, u64s(pid), types.AttributeKeyOrderDirection, o.Direction.String(),
			types.AttributeKeyOfferCoin, o.OfferCoin.String(), types.AttributeKeyDemandCoinDenom, o.ReceivedCoin.Denom,
			types.AttributeKeyPrice, o.Price.String(), types.AttributeKeyAmount, o.Amount.String(), types.AttributeKeyOrderId, u64s(o.Id),
			types.AttributeKeyBatchId, u64s(o.BatchId), types.AttributeKeyExpireAt, o.ExpireAt.Format(time.RFC3339),
			types.AttributeKeyRefundedCoins, refund.String())
	}
	switch msg := st.Msg.(type) {
	case *types.MsgCreatePair:
		p := post.Pairs[pre.LastPair+1]
		add(types.EventTypeCreatePair, types.AttributeKeyCreator, msg.Creator, types.AttributeKeyBaseCoinDenom, msg.BaseCoinDenom,
			types.AttributeKeyQuoteCoinDenom, msg.QuoteCoinDenom, types.AttributeKeyPairId, u64s(pre.LastPair+1), types.AttributeKeyEscrowAddress, p.EscrowAddress)
	case *types.MsgCreatePool, *types.MsgCreateRangedPool:
		p := post.Pools[pre.LastPool+1]
		typ, dep := types.EventTypeCreatePool, sdk.Coins{}
		if b, ok := msg.(*types.MsgCreatePool); ok {
			dep = b.DepositCoins
		} else {
			typ, dep = types.EventTypeCreateRangedPool, msg.(*types.MsgCreateRangedPool).DepositCoins
		}
		add(typ, types.AttributeKeyCreator, st.Signer, types.AttributeKeyPairId, u64s(p.PairId), types.AttributeKeyPoolId, u64s(pre.LastPool+1),
			types.AttributeKeyReserveAddress, p.ReserveAddress, types.AttributeKeyDepositCoins, dep.String(),
			types.AttributeKeyMintedPoolCoin, sdk.Coin{Denom: p.PoolCoinDenom, Amount: post.Supply(p.PoolCoinDenom).Sub(pre.Supply(p.PoolCoinDenom))}.String())
	case *types.MsgDeposit:
		add(types.EventTypeDeposit, types.AttributeKeyDepositor, msg.Depositor, types.AttributeKeyPoolId, u64s(msg.PoolId),
			types.AttributeKeyDepositCoins, msg.DepositCoins.String(), types.AttributeKeyRequestId, u64s(pre.Pools[msg.PoolId].LastDepositRequestId+1))
	case *types.MsgWithdraw:
		add(types.EventTypeWithdraw, types.AttributeKeyWithdrawer, msg.Withdrawer, types.AttributeKeyPoolId, u64s(msg.PoolId),
			types.AttributeKeyPoolCoin, msg.PoolCoin.String(), types.AttributeKeyRequestId, u64s(pre.Pools[msg.PoolId].LastWithdrawRequestId+1))
	case *types.MsgLimitOrder:
		order(types.EventTypeLimitOrder, msg.PairId, msg.OfferCoin)
	case *types.MsgMMOrder:
		order(types.EventTypeMMOrder, msg.PairId, msg.OfferCoin)
	case *types.MsgMarketOrder:
		order(types.EventTypeMarketOrder, msg.PairId, msg.OfferCoin)
	case *types.MsgCancelOrder:
		add(types.EventTypeCancelOrder, types.AttributeKeyOrderer, msg.Orderer, types.AttributeKeyPairId, u64s(msg.PairId), types.AttributeKeyOrderId, u64s(msg.OrderId))
	case *types.MsgCancelAllOrders:
		var ids []string
		for _, k := range sortedID2(post.Ord) {
			if ordLive(pre.Ord[k].Status) && post.Ord[k].Status == types.OrderStatusCanceled {
				ids = append(ids, u64s(k[1]))
			}
		}
		sort.Strings(ids)
		var pids []string
		for _, id := range msg.PairIds {
			pids = append(pids, u64s(id))
		}
		sort.Strings(pids)
		add(types.EventTypeCancelAllOrders, types.AttributeKeyOrderer, msg.Orderer, types.AttributeKeyPairIds, strings.Join(pids, ","),
			types.AttributeKeyCanceledOrderIds, strings.Join(ids, ","))
	}
	for _, k := range sortedID2(post.Ord) {
		if o, ok := pre.Ord[k]; ok && ordLive(o.Status) && !ordLive(post.Ord[k].Status) {
			out = append(out, orderResultEvent(post.Ord[k]))
		}
	}
	return out
}

// wantEndEvents: what a batch must report besides the trades of the pools,
// which are judged against their reserves.
func (m *DexMon) wantEndEvents(st *Step, pre, post *Snap, fills map[uint64][]fill) (out []wantEvent) {
	for _, k := range sortedID2(post.Ord) {
		if o, ok := pre.Ord[k]; ok && ordLive(o.Status) && !ordLive(post.Ord[k].Status) {
			out = append(out, orderResultEvent(post.Ord[k]))
		}
	}
	for _, id := range sortedU(fills) {
		for _, f := range fills[id] {
			out = append(out, wantEvent{types.EventTypeUserOrderMatched, map[string]string{
				types.AttributeKeyOrderDirection: f.pre.Direction.String(), types.AttributeKeyOrderer: f.pre.Orderer,
				types.AttributeKeyPairId: u64s(f.k[0]), types.AttributeKeyOrderId: u64s(f.k[1]), types.AttributeKeyMatchedAmount: f.amt.String(),
				types.AttributeKeyPaidCoin:     coinText(f.pre.OfferCoin.Denom, f.paid),
				types.AttributeKeyReceivedCoin: coinText(f.pre.ReceivedCoin.Denom, f.received)}})
		}
	}
	for _, k := range sortedID2(pre.Dep) {
		if pre.Dep[k].Status != types.RequestStatusNotExecuted {
			continue
		}
		p := post.Dep[k]
		ref, _ := p.DepositCoins.SafeSub(p.AcceptedCoins...)
		out = append(out, wantEvent{types.EventTypeDepositResult, map[string]string{
			types.AttributeKeyRequestId: u64s(k[1]), types.AttributeKeyPoolId: u64s(k[0]), types.AttributeKeyDepositor: p.Depositor,
			types.AttributeKeyDepositCoins: p.DepositCoins.String(), types.AttributeKeyAcceptedCoins: p.AcceptedCoins.String(),
			types.AttributeKeyRefundedCoins: ref.String(), types.AttributeKeyMintedPoolCoin: p.MintedPoolCoin.String(), types.AttributeKeyStatus: p.Status.String()}})
	}
	for _, k := range sortedID2(pre.Wd) {
		if pre.Wd[k].Status != types.RequestStatusNotExecuted {
			continue
		}
		p := post.Wd[k]
		ref := sdk.Coins{}
		if p.Status == types.RequestStatusFailed {
			ref = sdk.NewCoins(p.PoolCoin)
		}
		out = append(out, wantEvent{types.EventTypeWithdrawalResult, map[string]string{
			types.AttributeKeyRequestId: u64s(k[1]), types.AttributeKeyPoolId: u64s(k[0]), types.AttributeKeyWithdrawer: p.Withdrawer,
			types.AttributeKeyPoolCoin: p.PoolCoin.String(), types.AttributeKeyRefundedCoins: ref.String(),
			types.AttributeKeyWithdrawnCoins: p.WithdrawnCoins.String(), types.AttributeKeyStatus: p.Status.String()}})
	}
	return out
}

func coinText(denom string, a sm.Int) string { return sdk.Coin{Denom: denom, Amount: a}.String() }

// matchEvents compares what was emitted with what the step implies.
func (m *DexMon) matchEvents(st *Step, want []wantEvent) {
	left := map[string][]map[string]string{}
	for _, e := range st.Events {
		if !dexEvents[e.Type] {
			continue
		}
		a := map[string]string{}
		for _, x := range e.Attributes {
			a[x.Key] = x.Value
		}
		left[e.Type] = append(left[e.Type], a)
	}
	m.R.Count("events_expected", int64(len(want)))
	for _, w := range want {
		found := -1
		best, bestN := "", -1
		for i, a := range left[w.typ] {
			n, bad := 0, ""
			for _, k := range sortedKeys(w.attrs) {
				got, x := a[k], w.attrs[k]
				if k == types.AttributeKeyPairIds || k == types.AttributeKeyCanceledOrderIds {
					got, x = idSet(got), idSet(x)
				}
				if got == x {
					n++
				} else {
					bad += k + "=" + strconv.Quote(got) + " instead of " + strconv.Quote(x) + "; "
				}
			}
			if n == len(w.attrs) {
				found = i
				break
			}
			if n > bestN {
				best, bestN = bad, n
			}
		}
		if found < 0 {
			if bestN < 0 {
				m.v("C24", "event-missing:"+w.typ, "no %s event reports %v after %s", w.typ, w.attrs, st)
			} else {
				m.v("C24", "event-differs:"+w.typ, "the %s event reports %s(expected %v) after %s", w.typ, best, w.attrs, st)
			}
			continue
		}
		left[w.typ] = append(left[w.typ][:found:found], left[w.typ][found+1:]...)
	}
	for _, t := range sortedKeys(left) {
		if t == types.EventTypePoolOrderMatched {
			continue
		}
		if len(left[t]) > 0 {
			m.v("C24", "event-extra:"+t, "%s event %v tells of something that did not happen in %s", t, left[t][0], st)
		}
	}
}
