package main

func addFamily(prop string, fs ...*Family) {
	checks[prop].Families = append(checks[prop].Families, fs...)
}

func registerAmm() {
	register(&Check{Prop: "C11", Level: "exploration",
		Rule:        "A case is one price (or one walk of 400 neighbouring levels) at one precision put through every price-grid function; distinct by price and precision.",
		MinObserved: map[string]int64{"tick_prices": 10000},
		Families:    []*Family{chunkFamily("ticks", 64, 1500, 1500, tickCase), chunkFamily("tick-walks", 64, 800, 20, tickWalk)}})
	register(&Check{Prop: "C25", Level: "exploration",
		Rule:        "A case is one random pool (basic or ranged, balanced or nearly drained) whose quotes inside a random price band, and depth functions at many prices, are judged; non-trivial when the pool quotes at least one order, distinct by the pool and band.",
		MinObserved: map[string]int64{"pool_quotes": 1000},
		Families:    []*Family{chunkFamily("amm-pools", 160, 3000, 120, ammPoolCase)}})
	for _, p := range []string{"C01", "C02", "C03", "C12", "C14", "C21"} {
		addFamily(p, ammBookFamily(120, 4000))
	}
	for _, p := range []string{"C04", "C14"} {
		addFamily(p, chunkFamily("amm-pools", 80, 2000, 120, ammPoolCase))
	}
	for _, p := range []string{"C05", "C14"} {
		addFamily(p, chunkFamily("amm-liquidity", 80, 2000, 600, ammLiquidityCase))
	}
	for _, p := range []string{"C01", "C04", "C14"} {
		addFamily(p, limitsFamily(96, 2500))
	}
	addFamily("C05", chunkFamily("amm-creation", 80, 2000, 300, ammCreateCase))
}
