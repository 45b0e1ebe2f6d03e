package main

func mixFams(q, t int, rep string) []*Family { return nil }

func keeperCheck(prop string, kinds map[string][2]int, rule string, min map[string]int64) {
	c := &Check{Prop: prop, Level: "exploration", Rule: rule, MinObserved: min}
	for _, k := range sortedKeys(kinds) {
		k := k
		v := kinds[k]
		f := &Family{Name: "scenario-" + k, N: n(v[0], v[1]), Run: func(idx int, seed int64, tier string, rep *Reporter) {
			dm := NewDexMon(rep)
			w := RunScenario(seed, k, rep, dm)
			if w.Dead != "" {
				rep.Count("chain_halts", 1)
				rep.Halts = append(rep.Halts, clip(w.Dead, 400))
			}
			rep.Count("blocks", w.Height)
			rep.Case(w.digest(), dm.nontriv > 0, func() string { return joinLines(w.Trace, 25) })
		}}
		c.Families = append(c.Families, f)
	}
	register(c)
}

func joinLines(t []string, k int) string {
	out := ""
	for i, l := range t {
		if i >= k {
			break
		}
		out += clip(l, 300) + "\n"
	}
	return out
}

const keeperRule = "A case is one random multi-block history of real messages (orders, deposits, withdrawals, pools, cancellations, donations, malformed and unauthorised messages, parameter changes) run through the real router and block hooks; non-trivial when at least one batch traded, distinct by its full step trace."

func init() {
	type k = map[string][2]int
	q := func(mixed, orders, pools, mm, cancel, low int) k {
		out := k{}
		add := func(n string, q, t int) {
			if q > 0 {
				out[n] = [2]int{q, t}
			}
		}
		add("mixed", mixed, 3000)
		add("orders", orders, 1500)
		add("pools", pools, 1500)
		add("mm", mm, 800)
		add("cancel", cancel, 800)
		add("lowpools", low, 1000)
		add("extreme", 64, 1500)
		return out
	}
	for p, fam := range map[string]k{
		"C01": q(96, 48, 40, 16, 16, 40),
		"C02": q(96, 48, 40, 16, 32, 24),
		"C03": q(80, 72, 16, 16, 16, 40),
		"C04": q(96, 24, 48, 0, 0, 56),
		"C05": q(40, 0, 104, 0, 0, 24),
		"C06": q(80, 40, 40, 16, 40, 8),
		"C07": q(56, 0, 0, 56, 40, 0),
		"C12": q(64, 72, 16, 16, 16, 24),
		"C13": q(96, 32, 48, 16, 32, 0),
		"C14": q(104, 48, 48, 16, 16, 48),
		"C16": q(80, 32, 32, 16, 48, 0),
		"C17": q(96, 16, 32, 16, 16, 0),
		"C18": q(80, 80, 24, 24, 0, 16),
		"C21": q(80, 48, 40, 16, 0, 40),
		"C22": q(80, 16, 80, 16, 16, 16),
		"C24": q(80, 48, 40, 24, 24, 24),
	} {
		keeperCheck(p, fam, keeperRule, map[string]int64{"matched_batches": 100})
	}
	add := func(prop string, min map[string]int64, fs ...*Family) {
		c := checks[prop]
		c.Families = append(c.Families, fs...)
		for k, v := range min {
			c.MinObserved[k] = v
		}
	}
	add("C13", map[string]int64{"blocks_judged": 50, "failed_txs_replaced": 50, "sweep_points": 20}, &Family{Name: "failed-txs", N: n(32, 600), Run: c13Chain})
	add("C16", map[string]int64{"forged_txs": 300, "forged_blocks": 50}, &Family{Name: "forgeries", N: n(32, 600), Run: c16Forge})
}

func init() { registerAmm(); registerClosed(); registerNibbles() }
