package main

// Pools drained to their last coins, closed, and given coins afterwards.
func registerClosed() {
	for _, p := range []string{"C01", "C02", "C04", "C05", "C06", "C14", "C22", "C24"} {
		addFamily(p, &Family{Name: "closed-pools", N: n(48, 1500), Run: drained(func(seed int64, rep *Reporter) Monitor { return NewDexMon(rep) }, true)})
	}
}
