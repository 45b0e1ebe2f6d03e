package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Family is a workload: a fixed, PRNG-determined list of cases with monitors.
type Family struct {
	Name string
	N    func(tier string) int
	Run  func(idx int, seed int64, tier string, rep *Reporter)
	// Serial families run in one worker process.
	Serial bool
}

// Check is one property's check.
type Check struct {
	Prop        string
	Level       string
	Rule        string
	Assumptions []string
	Families    []*Family
	MinObserved map[string]int64 // counters that must be reached on a run for it to count
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.Prop] = c }

func n(quick, thorough int) func(string) int {
	return func(tier string) int {
		v := quick
		if tier == "thorough" {
			v = thorough
		}
		if s := os.Getenv("VERIF_SCALE"); s != "" {
			f, _ := strconv.ParseFloat(s, 64)
			if f > 0 {
				v = int(float64(v)*f) + 1
			}
		}
		return v
	}
}

func main() {
	debug.SetGCPercent(300)
	if len(os.Args) < 2 {
		fmt.Println("usage: run|worker|replay|list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, k := range sortedKeys(checks) {
			fmt.Println(k)
		}
	case "run":
		fs := flag.NewFlagSet("run", flag.ExitOnError)
		prop := fs.String("prop", "", "")
		tier := fs.String("tier", "quick", "")
		seed := fs.Int64("seed", 1, "")
		dir := fs.String("verif", "/verif", "")
		workers := fs.Int("workers", 8, "")
		_ = fs.Parse(os.Args[2:])
		os.Exit(orchestrate(*prop, *tier, *seed, *dir, *workers))
	case "worker":
		fs := flag.NewFlagSet("worker", flag.ExitOnError)
		prop := fs.String("prop", "", "")
		tier := fs.String("tier", "quick", "")
		seed := fs.Int64("seed", 1, "")
		fam := fs.String("family", "", "")
		shard := fs.Int("shard", 0, "")
		of := fs.Int("of", 1, "")
		from := fs.Int("from", 0, "")
		only := fs.Int("only", -1, "")
		verbose := fs.Bool("v", false, "")
		_ = fs.Parse(os.Args[2:])
		worker(*prop, *tier, *seed, *fam, *shard, *of, *from, *only, *verbose)
	case "replay":
		os.Exit(replay(os.Args[2]))
	default:
		if f, ok := extraCmds[os.Args[1]]; ok {
			f(os.Args[2:])
			return
		}
		os.Exit(2)
	}
}

// crashCounts names the properties which a dying worker process violates.
var crashCounts = map[string]bool{"C13": true, "C14": true, "C20": true, "C27": true}

// extraCmds are development and child-process commands.
var extraCmds = map[string]func([]string){}

func findFamily(prop, name string) *Family {
	for _, f := range checks[prop].Families {
		if f.Name == name {
			return f
		}
	}
	return nil
}

func caseSeed(seed int64, fam string, idx int) int64 { return subSeed(seed, fam, idx) }

func runCase(f *Family, idx int, seed int64, tier string, rep *Reporter) {
	rep.fam, rep.idx, rep.curTrace = f.Name, idx, nil
	defer func() {
		if r := recover(); r != nil {
			// A panic which escaped the drivers: the case is abandoned. It is
			// not evidence against the property being checked.
			rep.Count("cases_abandoned", 1)
			rep.Halts = append(rep.Halts, fmt.Sprintf("%s/%d: %v", f.Name, idx, clip(fmt.Sprint(r)+" "+stackTop(), 700)))
		}
	}()
	f.Run(idx, caseSeed(seed, f.Name, idx), tier, rep)
}

func stackTop() string {
	s := string(debug.Stack())
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	return clip(s, 900)
}

func worker(prop, tier string, seed int64, fam string, shard, of, from, only int, verbose bool) {
	out := bufio.NewWriter(os.Stdout)
	f := findFamily(prop, fam)
	rep := NewReporter(prop, tier, seed)
	total := f.N(tier)
	for i := 0; i < total; i++ {
		if i%of != shard || i < from {
			continue
		}
		if only >= 0 && i != only {
			continue
		}
		fmt.Fprintf(out, "P %d\n", i)
		out.Flush()
		seen := len(rep.Violations)
		runCase(f, i, seed, tier, rep)
		if len(rep.Violations) > seen { // survives a later crash of this process
			if bz, err := json.Marshal(rep.Violations); err == nil {
				fmt.Fprintf(out, "V %s\n", bz)
				out.Flush()
			}
		}
		if verbose {
			for _, t := range rep.curTrace {
				fmt.Fprintln(os.Stderr, clip(t, 600))
			}
		}
	}
	rep.Finish()
	bz, err := json.Marshal(rep)
	if err != nil {
		panic(err)
	}
	fmt.Fprintf(out, "R %s\n", bz)
	out.Flush()
}

type shardResult struct {
	reps    []*Reporter
	crashes []crash
	seen    map[string]Violation // reported before a crash
}

type crash struct {
	What, Family string
	Index        int
}

func runShard(prop, tier string, seed int64, fam string, shard, of int, stall time.Duration) (res shardResult) {
	res.seen = map[string]Violation{}
	from := 0
	for attempt := 0; attempt < 20; attempt++ {
		cmd := exec.Command(os.Args[0], "worker", "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed),
			"-family", fam, "-shard", fmt.Sprint(shard), "-of", fmt.Sprint(of), "-from", fmt.Sprint(from))
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "GOMAXPROCS=2", "GOTRACEBACK=single")
		if findFamily(prop, fam).Serial {
			cmd.Env = append(os.Environ(), "GOMAXPROCS=8", "GOTRACEBACK=single")
		}
		if prop == "C20" {
			cmd.Env = append(cmd.Env, raceEnv(), "GOMAXPROCS=4", "GOMEMLIMIT=off")
		}
		stdout, _ := cmd.StdoutPipe()
		var errBuf tailBuffer
		cmd.Stderr = &errBuf
		if err := cmd.Start(); err != nil {
			res.crashes = append(res.crashes, crash{"start: " + err.Error(), fam, -1})
			return
		}
		last := -1
		var mu sync.Mutex
		progress := time.Now()
		killed := false
		done := make(chan struct{})
		go func() {
			t := time.NewTicker(time.Second)
			defer t.Stop()
			for {
				select {
				case <-done:
					return
				case <-t.C:
					mu.Lock()
					if time.Since(progress) > stall && !killed {
						killed = true
						_ = cmd.Process.Kill()
					}
					mu.Unlock()
				}
			}
		}()
		got := false
		rd := bufio.NewReaderSize(stdout, 1<<20)
		for {
			line, err := rd.ReadString('\n')
			if strings.HasPrefix(line, "P ") {
				mu.Lock()
				last, _ = strconv.Atoi(strings.TrimSpace(line[2:]))
				progress = time.Now()
				mu.Unlock()
			} else if strings.HasPrefix(line, "V ") {
				m := map[string]Violation{}
				if json.Unmarshal([]byte(line[2:]), &m) == nil {
					for k, v := range m {
						res.seen[k] = v
					}
				}
			} else if strings.HasPrefix(line, "R ") {
				var r Reporter
				if e := json.Unmarshal([]byte(line[2:]), &r); e == nil {
					res.reps = append(res.reps, &r)
					got = true
				}
			}
			if err != nil {
				break
			}
		}
		_ = cmd.Wait()
		close(done)
		if got {
			return
		}
		why := "worker died"
		if killed {
			why = "worker made no progress and was stopped"
		}
		res.crashes = append(res.crashes, crash{fmt.Sprintf("%s in %s case %d: %s", why, fam, last, clip(errBuf.String(), 1500)), fam, last})
		from = last + 1
		if last < 0 || killed {
			return
		}
	}
	return
}

type tailBuffer struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.buf) < 64<<10 {
		t.buf = append(t.buf, p...)
	}
	return len(p), nil
}
func (t *tailBuffer) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.buf) }

// KnownFinding is one entry of known-findings.json.
type KnownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []KnownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

func orchestrate(prop, tier string, seed int64, dir string, workers int) int {
	start := time.Now()
	c := checks[prop]
	if c == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	evdir := filepath.Join(dir, "evidence")
	_ = os.MkdirAll(evdir, 0o755)
	known := map[string]KnownFinding{}
	{
		var kf knownFile
		if bz, err := os.ReadFile(filepath.Join(dir, "known-findings.json")); err == nil {
			_ = json.Unmarshal(bz, &kf)
		}
		for _, k := range kf.Findings {
			known[k.Property+"|"+k.Key] = k
		}
	}
	var mu sync.Mutex
	var all []*Reporter
	var crashes []crash
	vs := map[string]Violation{}
	famCases := map[string]int{}
	fresh := 0 // violations no finding lists
	type job struct {
		f         *Family
		shard, of int
	}
	var jobs, serial []job
	for _, f := range c.Families {
		N := f.N(tier)
		famCases[f.Name] = N
		if f.Serial {
			serial = append(serial, job{f, 0, 1})
			continue
		}
		w := min(N, 3*workers)
		for s := 0; s < w; s++ {
			jobs = append(jobs, job{f, s, w})
		}
	}
	skipped := 0
	run := func(j job) {
		mu.Lock()
		// On a quick run one violation is enough, and nothing may take forever.
		stop := tier == "quick" && (fresh > 0 || time.Since(start) > 500*time.Second)
		if stop {
			skipped++
		}
		mu.Unlock()
		if stop {
			return
		}
		r := runShard(prop, tier, seed, j.f.Name, j.shard, j.of, 150*time.Second)
		mu.Lock()
		defer mu.Unlock()
		all = append(all, r.reps...)
		crashes = append(crashes, r.crashes...)
		for k, v := range r.seen {
			vs[k] = v
			if _, is := known[v.Property+"|"+v.Key]; !is {
				fresh++
			}
		}
		if len(r.crashes) > 0 && crashCounts[prop] {
			fresh++
		}
	}
	queue := make(chan job)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range queue {
				run(j)
			}
		}()
	}
	for _, j := range jobs {
		queue <- j
	}
	close(queue)
	wg.Wait()
	for _, j := range serial {
		run(j)
	}
	counts := map[string]int64{}
	digests := map[string]struct{}{}
	var evals, steps int64
	var samples, halts []string
	for _, r := range all {
		evals += r.Evals
		steps += r.Steps
		for k, v := range r.Counts {
			if strings.HasPrefix(k, "max:") {
				if counts[k] < v {
					counts[k] = v
				}
			} else {
				counts[k] += v
			}
		}
		for _, d := range r.DigestList {
			digests[d] = struct{}{}
		}
		samples = append(samples, r.Samples...)
		halts = append(halts, r.Halts...)
		for k, v := range r.Violations {
			vs[k] = v
		}
	}
	sort.Strings(halts)
	sort.Slice(crashes, func(i, j int) bool { return crashes[i].What < crashes[j].What })
	if len(samples) > 4 {
		sort.Strings(samples)
		samples = samples[:4]
	}
	if crashCounts[prop] {
		for _, cr := range crashes {
			vs["crash|"+cr.What] = Violation{Property: prop, Key: "process-crash", What: cr.What, Family: cr.Family, Index: cr.Index, Seed: seed, Tier: tier}
		}
	}
	keys := make([]string, 0, len(vs))
	for k := range vs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	bad := 0
	hitKnown := map[string]int{}
	printed := map[string]bool{}
	for _, k := range keys {
		v := vs[k]
		if kfE, ok := known[v.Property+"|"+v.Key]; ok {
			hitKnown[v.Property+"|"+v.Key]++
			if !printed[v.Property+v.Key] {
				printed[v.Property+v.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", v.Property, kfE.What)
			}
			continue
		}
		bad++
		if bad > 20 {
			continue
		}
		path := filepath.Join(evdir, fmt.Sprintf("replay-%s-%d.json", prop, bad))
		bz, _ := json.MarshalIndent(v, "", " ")
		_ = os.WriteFile(path, bz, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  [%s] %s (family %s case %d seed %d)\n", v.Key, clip(v.What, 1500), v.Family, v.Index, v.Seed)
	}
	// Known findings which are always re-demonstrated even when this run's
	// workload did not hit them are printed by their own family.
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(digests),
		"rule":                c.Rule,
		"samples":             samples,
		"observed":            counts,
		"monitored_steps":     steps,
		"cases_per_family":    famCases,
		"known_findings_hit":  hitKnown,
	}
	if len(halts) > 0 {
		cov["abandoned_cases"] = halts[:min(len(halts), 20)]
	}
	if len(crashes) > 0 {
		cov["worker_crashes"] = crashes[:min(len(crashes), 20)]
	}
	var starved []string
	for k, v := range c.MinObserved {
		if counts[k] < v {
			starved = append(starved, fmt.Sprintf("%s=%d (wanted at least %d)", k, counts[k], v))
		}
	}
	sort.Strings(starved)
	if len(starved) > 0 {
		cov["starved"] = starved
	}
	if skipped > 0 {
		cov["shards_not_run"] = skipped
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": bad,
	}
	bz, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, prop+".json"), append(bz, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s tier=%s cases=%d distinct=%d steps=%d violations=%d abandoned=%d crashes=%d wall=%.1fs\n",
		prop, tier, evals, len(digests), steps, bad, len(halts), len(crashes), time.Since(start).Seconds())
	if bad > 0 {
		return 1
	}
	if len(starved) > 0 {
		// The monitors did not get to see what they need; the evidence says so.
		fmt.Println("note: workload starved:", strings.Join(starved, ", "))
		if evals == 0 {
			return 2
		}
	}
	return 0
}

// raceEnv makes the race detector write its reports where the check reads them.
func raceEnv() string {
	dir := os.Getenv("VERIF_WORK")
	if dir == "" {
		dir = os.TempDir()
	}
	return "GORACE=log_path=" + filepath.Join(dir, "race") + " halt_on_error=0 exitcode=0"
}

func replay(path string) int {
	bz, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(bz, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	f := findFamily(v.Property, v.Family)
	if f == nil {
		fmt.Println("no such family")
		return 2
	}
	if v.Property == "C20" && os.Getenv("GORACE") == "" {
		cmd := exec.Command(os.Args[0], "replay", path)
		cmd.Env = append(os.Environ(), raceEnv())
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if cmd.Run() != nil {
			return 1
		}
		return 0
	}
	rep := NewReporter(v.Property, v.Tier, v.Seed)
	runCase(f, v.Index, v.Seed, v.Tier, rep)
	for _, t := range rep.curTrace {
		fmt.Println(clip(t, 800))
	}
	for _, x := range rep.VList() {
		fmt.Printf("VIOLATION property=%s replay=%s\n  [%s] %s\n", x.Property, path, x.Key, x.What)
	}
	for _, h := range rep.Halts {
		fmt.Println("abandoned:", h)
	}
	if len(rep.Violations) > 0 {
		return 1
	}
	return 0
}
