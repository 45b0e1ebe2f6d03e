package main

// Query oracles: every answer is recomputed from the full records.

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"

	sm "cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	"github.com/cosmos/gogoproto/proto"

	"defund/app"
	"defund/x/dex/types"
)

const qPath = "/defund.dex.Query/"

var errPanicked = errors.New("panicked")

// asker asks one question.
type asker func(method string, req, resp proto.Message) error

// routeAsker asks the registered query service over a given context.
func routeAsker(a *app.App, ctx sdk.Context) asker {
	return func(method string, req, resp proto.Message) (err error) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("%w: %v %s", errPanicked, p, clip(stackTop(), 400))
			}
		}()
		h := a.GRPCQueryRouter().Route(qPath + method)
		if h == nil {
			return fmt.Errorf("no such query")
		}
		bz, err := proto.Marshal(req)
		if err != nil {
			return err
		}
		r, err := h(ctx, &abci.RequestQuery{Data: bz, Path: qPath + method})
		if err != nil {
			return err
		}
		if resp != nil {
			return proto.Unmarshal(r.Value, resp)
		}
		return nil
	}
}

// abciAsker asks a node at a height.
func abciAsker(c *Chain, height int64) asker {
	return func(method string, req, resp proto.Message) (err error) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("%w: %v", errPanicked, p)
			}
		}()
		bz, err := proto.Marshal(req)
		if err != nil {
			return err
		}
		r, err := c.App.Query(context.Background(), &abci.RequestQuery{Path: qPath + method, Data: bz, Height: height})
		if err != nil {
			return err
		}
		if r.Code == 111222 && r.Codespace == "sdk" {
			return fmt.Errorf("%w: %s", errPanicked, clip(r.Log, 400))
		}
		if r.Code != 0 {
			return fmt.Errorf("%s/%d: %s", r.Codespace, r.Code, clip(r.Log, 200))
		}
		if resp != nil {
			return proto.Unmarshal(r.Value, resp)
		}
		return nil
	}
}

func pb(m proto.Message) string {
	bz, err := proto.Marshal(m)
	if err != nil {
		return "unmarshalable: " + err.Error()
	}
	return string(bz)
}

type qcheck struct {
	ask asker
	s   *Snap
	r   *rand.Rand
	rep *Reporter
	out []string
}

func (q *qcheck) bad(f string, a ...any) { q.out = append(q.out, fmt.Sprintf(f, a...)) }

func (q *qcheck) count(k string, n int64) {
	if q.rep != nil {
		q.rep.Count(k, n)
	}
}

// missing expects a clean error.
func (q *qcheck) missing(what, method string, req proto.Message) {
	err := q.ask(method, req, nil)
	q.count("missing_lookups", 1)
	if err == nil {
		q.bad("%s %v: answered although there is none", method, what)
	} else if errors.Is(err, errPanicked) {
		q.bad("%s %v: %v", method, what, err)
	}
}

func (q *qcheck) found(what, method string, req, resp proto.Message, want proto.Message) {
	if err := q.ask(method, req, resp); err != nil {
		q.bad("%s %s: %v", method, what, err)
		return
	}
	q.count("lookups", 1)
	if pb(resp) != pb(want) {
		q.bad("%s %s: answered %v, stored %v", method, what, clip(fmt.Sprint(resp), 500), clip(fmt.Sprint(want), 500))
	}
}

// poolResponse is the answer the records call for.
func (q *qcheck) poolResponse(p types.Pool) types.PoolResponse {
	pair := q.s.Pairs[p.PairId]
	x, y := q.s.B(p.ReserveAddress, pair.QuoteCoinDenom), q.s.B(p.ReserveAddress, pair.BaseCoinDenom)
	ps := q.s.Supply(p.PoolCoinDenom)
	return types.PoolResponse{Type: p.Type, Id: p.Id, PairId: p.PairId, Creator: p.Creator, ReserveAddress: p.ReserveAddress, PoolCoinDenom: p.PoolCoinDenom,
		PoolCoinSupply: ps, MinPrice: p.MinPrice, MaxPrice: p.MaxPrice,
		Balances:             types.PoolBalances{BaseCoin: sdk.NewCoin(pair.BaseCoinDenom, y), QuoteCoin: sdk.NewCoin(pair.QuoteCoinDenom, x)},
		LastDepositRequestId: p.LastDepositRequestId, LastWithdrawRequestId: p.LastWithdrawRequestId, Disabled: p.Disabled}
}

// poolMatches compares a pool's answer with the records; the price is judged by
// its meaning.
func (q *qcheck) poolMatches(where string, got types.PoolResponse, p types.Pool) bool {
	want := q.poolResponse(p)
	pr := got.Price
	got.Price = nil
	if pb(&got) != pb(&want) {
		q.bad("%s: pool %d answered %v, stored %v", where, p.Id, clip(fmt.Sprint(got), 500), clip(fmt.Sprint(want), 500))
		return false
	}
	x, y := want.Balances.QuoteCoin.Amount, want.Balances.BaseCoin.Amount
	if p.Disabled {
		if pr != nil {
			q.bad("%s: closed pool %d has price %s", where, p.Id, pr)
			return false
		}
		return true
	}
	depleted := want.PoolCoinSupply.IsZero() || (x.IsZero() && y.IsZero()) || (p.Type == types.PoolTypeBasic && (x.IsZero() || y.IsZero()))
	if pr == nil {
		if !depleted {
			q.bad("%s: open pool %d has no price", where, p.Id)
			return false
		}
		return true
	}
	if depleted {
		return true
	}
	if ref, err := refPoolPrice(p, x, y, want.PoolCoinSupply); err == nil {
		if pr.Sub(ref).Abs().GT(sm.LegacySmallestDec()) {
			q.bad("%s: pool %d has price %s, its reserves say %s", where, p.Id, pr, ref)
			return false
		}
	}
	return true
}

type listing struct {
	name  string
	fetch func(pg *query.PageRequest) (recs []string, pr *query.PageResponse, err error)
	want  []string
}

func multiset(a []string) map[string]int {
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	return m
}

func sameSet(a, b []string) string {
	x, y := multiset(a), multiset(b)
	for k, n := range x {
		if y[k] < n {
			return fmt.Sprintf("%q %d times, expected %d", clip(k, 120), n, y[k])
		}
	}
	for k, n := range y {
		if x[k] < n {
			return fmt.Sprintf("%q missing (%d of %d)", clip(k, 120), x[k], n)
		}
	}
	return ""
}

// walk goes through a listing in every way.
func (q *qcheck) walk(l listing) {
	total := uint64(len(l.want))
	fail := func(how string, err error) {
		q.bad("%s %s: %v", l.name, how, err)
	}
	q.count("listings", 1)
	if total > 0 {
		q.count("listings_nonempty", 1)
	}
	if total <= 100 {
		got, pr, err := l.fetch(nil)
		if err != nil {
			fail("without paging", err)
			return
		}
		if d := sameSet(got, l.want); d != "" {
			q.bad("%s without paging: %s", l.name, d)
			return
		}
		if pr != nil && pr.Total != total {
			q.bad("%s without paging: total %d of %d", l.name, pr.Total, total)
		}
	}
	if total > 100 { // the default page, and the rest from its key
		got, pr, err := l.fetch(nil)
		if err != nil || len(got) != 100 || len(pr.NextKey) == 0 {
			q.bad("%s without paging: %d of %d records, %v %v", l.name, len(got), total, pr, err)
			return
		}
		for key := pr.NextKey; len(key) > 0; key = pr.NextKey {
			var more []string
			if more, pr, err = l.fetch(&query.PageRequest{Key: key}); err != nil || len(more) == 0 || len(more) > 100 || len(got) > int(total) {
				q.bad("%s, default pages: %d more after %d of %d, %v", l.name, len(more), len(got), total, err)
				return
			}
			got = append(got, more...)
		}
		q.count("listings_beyond_default_page", 1)
		if d := sameSet(got, l.want); d != "" {
			q.bad("%s by default pages: %s", l.name, d)
			return
		}
	}
	for _, rev := range []bool{false, true} {
		lim := uint64(1 + q.r.Intn(6))
		if q.r.Intn(6) == 0 && total > 0 {
			lim = total
		}
		if q.r.Intn(2) == 0 { // by key
			how := fmt.Sprintf("by key, pages of %d, reverse=%v", lim, rev)
			var got []string
			var key []byte
			for page := 0; ; page++ {
				if page > int(total)*12+60 {
					q.bad("%s %s: never ends", l.name, how)
					return
				}
				recs, pr, err := l.fetch(&query.PageRequest{Key: key, Limit: lim, Reverse: rev, CountTotal: page == 0})
				if err != nil {
					fail(how, err)
					return
				}
				q.count("pages", 1)
				if uint64(len(recs)) > lim {
					q.bad("%s %s: a page of %d", l.name, how, len(recs))
					return
				}
				if page == 0 && pr.Total != total {
					q.bad("%s %s: total %d of %d", l.name, how, pr.Total, total)
					return
				}
				got = append(got, recs...)
				key = pr.NextKey
				if len(key) == 0 {
					break
				}
			}
			if d := sameSet(got, l.want); d != "" {
				q.bad("%s %s: %s", l.name, how, d)
				return
			}
		} else {
			how := fmt.Sprintf("by offset, pages of %d, reverse=%v", lim, rev)
			var got []string
			for off := uint64(0); ; off += lim {
				ct := q.r.Intn(2) == 0
				recs, pr, err := l.fetch(&query.PageRequest{Offset: off, Limit: lim, Reverse: rev, CountTotal: ct})
				if err != nil {
					fail(how, err)
					return
				}
				q.count("pages", 1)
				if uint64(len(recs)) > lim {
					q.bad("%s %s: a page of %d", l.name, how, len(recs))
					return
				}
				if ct && pr.Total != total {
					q.bad("%s %s at %d: total %d of %d", l.name, how, off, pr.Total, total)
					return
				}
				got = append(got, recs...)
				if off > total {
					break
				}
			}
			if d := sameSet(got, l.want); d != "" {
				q.bad("%s %s: %s", l.name, how, d)
				return
			}
		}
	}
}

func (q *qcheck) users() []string {
	seen := map[string]bool{}
	for _, o := range q.s.Ord {
		seen[o.Orderer] = true
	}
	for i := 0; i < 3; i++ {
		seen[userAddr(i).String()] = true
	}
	return sortedKeys(seen)
}

func (q *qcheck) all() {
	s, r := q.s, q.r
	q.found("", "Params", &types.QueryParamsRequest{}, &types.QueryParamsResponse{}, &types.QueryParamsResponse{Params: s.Params})
	// Single records.
	for id := uint64(0); id <= s.LastPair+1; id++ {
		req := &types.QueryPairRequest{PairId: id}
		if p, ok := s.Pairs[id]; ok {
			q.found(fmt.Sprint(id), "Pair", req, &types.QueryPairResponse{}, &types.QueryPairResponse{Pair: p})
		} else {
			q.missing(fmt.Sprint(id), "Pair", req)
		}
	}
	for id := uint64(0); id <= s.LastPool+1; id++ {
		p, ok := s.Pools[id]
		reqs := []struct {
			m   string
			req proto.Message
		}{
			{"Pool", &types.QueryPoolRequest{PoolId: id}},
			{"PoolByReserveAddress", &types.QueryPoolByReserveAddressRequest{ReserveAddress: types.PoolReserveAddress(id).String()}},
			{"PoolByPoolCoinDenom", &types.QueryPoolByPoolCoinDenomRequest{PoolCoinDenom: types.PoolCoinDenom(id)}},
		}
		for _, x := range reqs {
			if !ok {
				q.missing(fmt.Sprint(id), x.m, x.req)
				continue
			}
			var resp types.QueryPoolResponse
			if err := q.ask(x.m, x.req, &resp); err != nil {
				q.bad("%s %d: %v", x.m, id, err)
				continue
			}
			q.count("lookups", 1)
			q.poolMatches(x.m, resp.Pool, p)
		}
		if ok && p.ReserveAddress != types.PoolReserveAddress(id).String() {
			q.bad("pool %d has reserve %s", id, p.ReserveAddress)
		}
		// Requests.
		for rid := uint64(0); rid <= max(p.LastDepositRequestId, p.LastWithdrawRequestId)+1; rid++ {
			if rid > 3 && r.Intn(3) > 0 {
				if _, a := s.Dep[ID2{id, rid}]; !a {
					if _, b := s.Wd[ID2{id, rid}]; !b {
						continue
					}
				}
			}
			dq := &types.QueryDepositRequestRequest{PoolId: id, Id: rid}
			if d, ok := s.Dep[ID2{id, rid}]; ok {
				q.found(fmt.Sprint(id, "/", rid), "DepositRequest", dq, &types.QueryDepositRequestResponse{}, &types.QueryDepositRequestResponse{DepositRequest: d})
			} else {
				q.missing(fmt.Sprint(id, "/", rid), "DepositRequest", dq)
			}
			wq := &types.QueryWithdrawRequestRequest{PoolId: id, Id: rid}
			if d, ok := s.Wd[ID2{id, rid}]; ok {
				q.found(fmt.Sprint(id, "/", rid), "WithdrawRequest", wq, &types.QueryWithdrawRequestResponse{}, &types.QueryWithdrawRequestResponse{WithdrawRequest: d})
			} else {
				q.missing(fmt.Sprint(id, "/", rid), "WithdrawRequest", wq)
			}
		}
	}
	for _, k := range sortedID2(s.Ord) {
		o := s.Ord[k]
		q.found(fmt.Sprint(k), "Order", &types.QueryOrderRequest{PairId: k[0], Id: k[1]}, &types.QueryOrderResponse{}, &types.QueryOrderResponse{Order: o})
	}
	for _, pid := range s.PairIDs() {
		for i := 0; i < 4; i++ {
			id := uint64(r.Intn(int(s.Pairs[pid].LastOrderId) + 3))
			if _, ok := s.Ord[ID2{pid, id}]; !ok {
				q.missing(fmt.Sprint(pid, "/", id), "Order", &types.QueryOrderRequest{PairId: pid, Id: id})
			}
		}
	}
	// Listings.
	pairList := func(name string, denoms []string, match func(types.Pair) bool) {
		l := listing{name: name}
		for _, id := range s.PairIDs() {
			if p := s.Pairs[id]; match(p) {
				l.want = append(l.want, pb(&p))
			}
		}
		l.fetch = func(pg *query.PageRequest) (out []string, pr *query.PageResponse, err error) {
			var resp types.QueryPairsResponse
			err = q.ask("Pairs", &types.QueryPairsRequest{Denoms: denoms, Pagination: pg}, &resp)
			for i := range resp.Pairs {
				out = append(out, pb(&resp.Pairs[i]))
			}
			return out, resp.Pagination, err
		}
		q.walk(l)
	}
	has := func(p types.Pair, d string) bool { return p.BaseCoinDenom == d || p.QuoteCoinDenom == d }
	pairList("Pairs", nil, func(types.Pair) bool { return true })
	ds := map[string]bool{"zzz": true, "zzzz": true}
	for _, p := range s.Pairs {
		ds[p.BaseCoinDenom], ds[p.QuoteCoinDenom] = true, true
	}
	dl := sortedKeys(ds)
	for _, d := range dl {
		pairList("Pairs with "+clip(d, 20), []string{d}, func(p types.Pair) bool { return has(p, d) })
	}
	for i := 0; i < 3; i++ {
		a, b := dl[r.Intn(len(dl))], dl[r.Intn(len(dl))]
		if a == b {
			continue
		}
		pairList(fmt.Sprintf("Pairs with %s and %s", clip(a, 20), clip(b, 20)), []string{a, b}, func(p types.Pair) bool { return has(p, a) && has(p, b) })
	}
	for _, id := range s.PairIDs() {
		p := s.Pairs[id]
		pairList(fmt.Sprintf("Pairs with %s and %s", clip(p.BaseCoinDenom, 20), clip(p.QuoteCoinDenom, 20)), []string{p.QuoteCoinDenom, p.BaseCoinDenom},
			func(x types.Pair) bool { return has(x, p.BaseCoinDenom) && has(x, p.QuoteCoinDenom) })
	}
	if err := q.ask("Pairs", &types.QueryPairsRequest{Denoms: []string{"aaa", "bbb", "ccc"}}, nil); err == nil || errors.Is(err, errPanicked) {
		q.bad("Pairs with three denominations: %v", err)
	}
	for pid := uint64(0); pid <= s.LastPair+1; pid++ {
		for _, dis := range []string{"", "true", "false"} {
			l := listing{name: fmt.Sprintf("Pools of pair %d disabled=%q", pid, dis)}
			for _, id := range s.PoolIDs() {
				p := s.Pools[id]
				if (pid == 0 || p.PairId == pid) && (dis == "" || fmt.Sprint(p.Disabled) == dis) {
					l.want = append(l.want, fmt.Sprint(p.Id))
				}
			}
			l.fetch = func(pg *query.PageRequest) (out []string, pr *query.PageResponse, err error) {
				var resp types.QueryPoolsResponse
				err = q.ask("Pools", &types.QueryPoolsRequest{PairId: pid, Disabled: dis, Pagination: pg}, &resp)
				for _, p := range resp.Pools {
					out = append(out, fmt.Sprint(p.Id))
					if sp, ok := s.Pools[p.Id]; ok {
						q.poolMatches(l.name, p, sp)
					}
				}
				return out, resp.Pagination, err
			}
			q.walk(l)
		}
	}
	for id := uint64(1); id <= s.LastPool+1; id++ {
		dl := listing{name: fmt.Sprintf("DepositRequests of pool %d", id)}
		for _, k := range sortedID2(s.Dep) {
			if k[0] == id {
				d := s.Dep[k]
				dl.want = append(dl.want, pb(&d))
			}
		}
		dl.fetch = func(pg *query.PageRequest) (out []string, pr *query.PageResponse, err error) {
			var resp types.QueryDepositRequestsResponse
			err = q.ask("DepositRequests", &types.QueryDepositRequestsRequest{PoolId: id, Pagination: pg}, &resp)
			for i := range resp.DepositRequests {
				out = append(out, pb(&resp.DepositRequests[i]))
			}
			return out, resp.Pagination, err
		}
		q.walk(dl)
		wl := listing{name: fmt.Sprintf("WithdrawRequests of pool %d", id)}
		for _, k := range sortedID2(s.Wd) {
			if k[0] == id {
				d := s.Wd[k]
				wl.want = append(wl.want, pb(&d))
			}
		}
		wl.fetch = func(pg *query.PageRequest) (out []string, pr *query.PageResponse, err error) {
			var resp types.QueryWithdrawRequestsResponse
			err = q.ask("WithdrawRequests", &types.QueryWithdrawRequestsRequest{PoolId: id, Pagination: pg}, &resp)
			for i := range resp.WithdrawRequests {
				out = append(out, pb(&resp.WithdrawRequests[i]))
			}
			return out, resp.Pagination, err
		}
		q.walk(wl)
	}
	us := q.users()
	for pid := uint64(0); pid <= s.LastPair+1; pid++ {
		if pid > 0 {
			l := listing{name: fmt.Sprintf("Orders of pair %d", pid)}
			for _, k := range sortedID2(s.Ord) {
				if k[0] == pid {
					o := s.Ord[k]
					l.want = append(l.want, pb(&o))
				}
			}
			l.fetch = func(pg *query.PageRequest) (out []string, pr *query.PageResponse, err error) {
				var resp types.QueryOrdersResponse
				err = q.ask("Orders", &types.QueryOrdersRequest{PairId: pid, Pagination: pg}, &resp)
				for i := range resp.Orders {
					out = append(out, pb(&resp.Orders[i]))
				}
				return out, resp.Pagination, err
			}
			q.walk(l)
		}
		for _, u := range us {
			l := listing{name: fmt.Sprintf("OrdersByOrderer of %s pair %d", u[len(u)-6:], pid)}
			for _, k := range sortedID2(s.Ord) {
				if o := s.Ord[k]; o.Orderer == u && (pid == 0 || k[0] == pid) {
					l.want = append(l.want, pb(&o))
				}
			}
			l.fetch = func(pg *query.PageRequest) (out []string, pr *query.PageResponse, err error) {
				var resp types.QueryOrdersResponse
				err = q.ask("OrdersByOrderer", &types.QueryOrdersByOrdererRequest{Orderer: u, PairId: pid, Pagination: pg}, &resp)
				for i := range resp.Orders {
					out = append(out, pb(&resp.Orders[i]))
				}
				return out, resp.Pagination, err
			}
			q.walk(l)
			if pid > 0 {
				var resp types.QueryNumMMOrdersResponse
				if err := q.ask("NumMMOrders", &types.QueryNumMMOrdersRequest{Orderer: u, PairId: pid}, &resp); err != nil {
					q.bad("NumMMOrders: %v", err)
				} else {
					n := uint32(0)
					for _, o := range s.Ord {
						if o.PairId == pid && o.Orderer == u && o.Type == types.OrderTypeMM && ordLive(o.Status) {
							n++
						}
					}
					if resp.NumMarketMakingOrders != n {
						q.bad("NumMMOrders of %s on %d: %d, live are %d", u, pid, resp.NumMarketMakingOrders, n)
					}
				}
			}
		}
	}
	// Ill-formed questions fail cleanly.
	for _, x := range []struct {
		m   string
		req proto.Message
	}{
		{"Orders", &types.QueryOrdersRequest{}},
		{"OrdersByOrderer", &types.QueryOrdersByOrdererRequest{Orderer: "nobody"}},
		{"OrdersByOrderer", &types.QueryOrdersByOrdererRequest{}},
		{"NumMMOrders", &types.QueryNumMMOrdersRequest{Orderer: "x", PairId: 1}},
		{"NumMMOrders", &types.QueryNumMMOrdersRequest{Orderer: us[0]}},
		{"DepositRequests", &types.QueryDepositRequestsRequest{}},
		{"WithdrawRequests", &types.QueryWithdrawRequestsRequest{}},
		{"Pools", &types.QueryPoolsRequest{Disabled: "maybe"}},
		{"PoolByReserveAddress", &types.QueryPoolByReserveAddressRequest{}},
		{"PoolByReserveAddress", &types.QueryPoolByReserveAddressRequest{ReserveAddress: "zz"}},
		{"PoolByReserveAddress", &types.QueryPoolByReserveAddressRequest{ReserveAddress: us[0]}},
		{"PoolByPoolCoinDenom", &types.QueryPoolByPoolCoinDenomRequest{}},
		{"PoolByPoolCoinDenom", &types.QueryPoolByPoolCoinDenomRequest{PoolCoinDenom: "aaa"}},
		{"PoolByPoolCoinDenom", &types.QueryPoolByPoolCoinDenomRequest{PoolCoinDenom: "pool99999999999999999999999"}},
		{"Pairs", &types.QueryPairsRequest{Denoms: []string{""}}},
		{"OrderBooks", &types.QueryOrderBooksRequest{}},
		{"OrderBooks", &types.QueryOrderBooksRequest{PairIds: []uint64{1}}},
		{"OrderBooks", &types.QueryOrderBooksRequest{PairIds: []uint64{1, 1}, NumTicks: 5}},
		{"OrderBooks", &types.QueryOrderBooksRequest{PairIds: []uint64{1 << 60}, NumTicks: 5}},
	} {
		if r.Intn(4) > 0 {
			continue
		}
		q.missing(fmt.Sprint(x.req), x.m, x.req)
	}
}

// queryCheck compares all answers over a context with the records.
func queryCheck(a *app.App, ctx sdk.Context, s *Snap, r *rand.Rand, rep *Reporter) []string {
	q := &qcheck{ask: routeAsker(a, ctx), s: s, r: r, rep: rep}
	q.all()
	sort.Strings(q.out)
	return q.out
}
