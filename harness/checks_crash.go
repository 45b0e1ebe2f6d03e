package main

// C09: crashes. A recording database keeps the atomic writes a node issues; a
// crash is any prefix of them. Other cases make the database refuse writes,
// restart nodes between blocks, or kill a node process working on disk.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
)

type dbOp struct {
	del bool
	k   []byte
	v   []byte
}

// recDB records every atomic write; from unit failAt on it refuses them.
type recDB struct {
	dbm.DB
	log    [][]dbOp
	failAt int // -1: never
	failed int
}

func newRecDB(base dbm.DB) *recDB { return &recDB{DB: base, failAt: -1} }

var errDisk = errors.New("injected: no space left on device")

func cp(b []byte) []byte { return append([]byte{}, b...) }

func (d *recDB) unit(ops []dbOp) error {
	if d.failAt >= 0 && len(d.log) >= d.failAt {
		d.failed++
		return errDisk
	}
	d.log = append(d.log, ops)
	return nil
}

func (d *recDB) Set(k, v []byte) error {
	if err := d.unit([]dbOp{{false, cp(k), cp(v)}}); err != nil {
		return err
	}
	return d.DB.Set(k, v)
}
func (d *recDB) SetSync(k, v []byte) error { return d.Set(k, v) }
func (d *recDB) Delete(k []byte) error {
	if err := d.unit([]dbOp{{true, cp(k), nil}}); err != nil {
		return err
	}
	return d.DB.Delete(k)
}
func (d *recDB) DeleteSync(k []byte) error        { return d.Delete(k) }
func (d *recDB) NewBatch() dbm.Batch              { return &recBatch{Batch: d.DB.NewBatch(), d: d} }
func (d *recDB) NewBatchWithSize(n int) dbm.Batch { return d.NewBatch() }
func (d *recDB) Close() error                     { return nil }

type recBatch struct {
	dbm.Batch
	d   *recDB
	ops []dbOp
}

func (b *recBatch) Set(k, v []byte) error {
	b.ops = append(b.ops, dbOp{false, cp(k), cp(v)})
	return b.Batch.Set(k, v)
}
func (b *recBatch) Delete(k []byte) error {
	b.ops = append(b.ops, dbOp{true, cp(k), nil})
	return b.Batch.Delete(k)
}
func (b *recBatch) Write() error {
	if len(b.ops) > 0 {
		if err := b.d.unit(b.ops); err != nil {
			return err
		}
	}
	b.ops = nil
	return b.Batch.Write()
}
func (b *recBatch) WriteSync() error { return b.Write() }

// rebuild is the database after the first n writes.
func rebuild(log [][]dbOp, n int) *dbm.MemDB {
	db := dbm.NewMemDB()
	for _, u := range log[:n] {
		for _, o := range u {
			if o.del {
				_ = db.Delete(o.k)
			} else {
				_ = db.Set(o.k, o.v)
			}
		}
	}
	return db
}

type crashRef struct {
	plan  *Plan
	want  []string // canonical results of block i+1
	snaps []*Snap  // committed state after block i (0: nothing)
	hash  []string
}

// resume opens a node over what a crash left and lets it catch up.
func resume(ref *crashRef, db dbm.DB, atLeast, atMost int64, upto int, rep *Reporter, opts ...func(*baseapp.BaseApp)) (bad string) {
	defer func() {
		if p := recover(); p != nil {
			bad = fmt.Sprintf("the restarted node panicked: %v %s", p, stackTop())
		}
	}()
	c := openChain(db, opts...)
	if c.Height < atLeast || c.Height > atMost {
		return fmt.Sprintf("restarted at height %d, committed were %d to %d", c.Height, atLeast, atMost)
	}
	rep.Count("restarts", 1)
	if c.Height == 0 {
		if err := c.initPlan(ref.plan); err != nil {
			return "cannot initialise again: " + err.Error()
		}
	} else {
		c.Time = ref.plan.Blocks[c.Height-1].Time
		if got := fmt.Sprintf("%x", c.App.LastCommitID().Hash); got != ref.hash[c.Height] {
			return fmt.Sprintf("restarted at height %d with hash %s instead of %s", c.Height, got[:16], ref.hash[c.Height][:16])
		}
		if d := snapDiff(ref.snaps[c.Height], c.Snap()); len(d) > 0 {
			return fmt.Sprintf("restarted at height %d with another state: %s", c.Height, join(d, 4))
		}
	}
	for c.Height < int64(upto) {
		b := ref.plan.Blocks[c.Height]
		r, err := c.Finalize(b)
		if err != nil {
			return fmt.Sprintf("cannot execute height %d after the restart: %v", c.Height+1, err)
		}
		if got := canon(r); got != ref.want[c.Height] {
			return fmt.Sprintf("height %d after the restart: %s", c.Height+1, firstDiff(ref.want[c.Height], got))
		}
		if err := c.Commit(b); err != nil {
			return fmt.Sprintf("cannot commit height %d after the restart: %v", c.Height+1, err)
		}
		rep.Count("blocks_reexecuted", 1)
	}
	if d := snapDiff(ref.snaps[c.Height], c.Snap()); len(d) > 0 {
		return fmt.Sprintf("state of height %d after the restart differs: %s", c.Height, join(d, 4))
	}
	return ""
}

// crashHistory runs a reference node over a recording database.
func crashHistory(idx int, seed int64, blocks int, rep *Reporter, opts ...func(*baseapp.BaseApp)) (h *history, ref *crashRef, db *recDB, marks []int) {
	db = newRecDB(dbm.NewMemDB())
	h = newHistory(seed, idx, db, opts...)
	ref = &crashRef{plan: h.plan, snaps: []*Snap{nil}, hash: []string{""}}
	marks = []int{len(db.log)}
	for len(h.res) < blocks && h.next(rep) {
		ref.want = append(ref.want, canon(h.res[len(h.res)-1]))
		ref.snaps = append(ref.snaps, h.C().Snap())
		ref.hash = append(ref.hash, fmt.Sprintf("%x", h.C().App.LastCommitID().Hash))
		marks = append(marks, len(db.log))
	}
	return
}

func c09Prefix(idx int, seed int64, tier string, rep *Reporter) {
	r := rand.New(rand.NewSource(subSeed(seed, "c09")))
	opts, desc := nodeConf(r)
	h, ref, db, marks := crashHistory(idx, seed, 8+r.Intn(8), rep, opts()...)
	nb := len(h.res)
	if nb < 3 {
		return
	}
	// One or two blocks at every write; the others at one random write.
	full := map[int]bool{1 + r.Intn(nb-1): true}
	if tier == "thorough" {
		full[1+r.Intn(nb-1)] = true
	}
	points := 0
	// Before the first commit there is no height to come back to.
	for b := 1; b < nb; b++ {
		lo, hi := marks[b], marks[b+1]
		var ks []int
		if full[b] {
			for k := lo; k <= hi; k++ {
				ks = append(ks, k)
			}
		} else {
			ks = []int{lo + r.Intn(hi-lo+1)}
		}
		for _, k := range ks {
			o2 := opts
			d2 := desc
			if r.Intn(3) == 0 {
				o2, d2 = nodeConfOn(r, strings.Contains(desc, "no-fast-node"))
			}
			atMost := int64(b)
			if k > lo {
				atMost = int64(b + 1)
			}
			atLeast := int64(b)
			if k == hi {
				atLeast = int64(b + 1)
			}
			points++
			bad := resume(ref, rebuild(db.log, k), atLeast, atMost, min(nb, b+3), rep, o2()...)
			if bad != "" {
				rep.Violate("C09", "crash-prefix", "crash after write %d of %d of height %d (%s, restarted with %s): %s", k-lo, hi-lo, b+1, desc, d2, bad)
			}
		}
	}
	rep.Count("crash_points", int64(points))
	rep.Case(h.digest(), h.trades() > 0, func() string {
		return fmt.Sprintf("%d crash points over %d blocks, writes per block %v, %s\n", points, nb, marks, desc) + joinLines(h.g.Trace, 12)
	})
}

// c09Fail lets writes fail from some point on; the node must stop (or go on
// without them) and a restart must find the last committed height.
func c09Fail(idx int, seed int64, tier string, rep *Reporter) {
	r := rand.New(rand.NewSource(subSeed(seed, "c09f")))
	opts, desc := nodeConf(r)
	h, ref, db, marks := crashHistory(idx, seed, 8+r.Intn(6), rep, opts()...)
	nb := len(h.res)
	if nb < 4 {
		return
	}
	for t := 0; t < 6; t++ {
		b := 1 + r.Intn(nb-2)
		lo, hi := marks[b], marks[b+1]
		fd := newRecDB(rebuild(db.log, lo))
		c := openChain(fd, opts()...)
		c.Time = ref.plan.Blocks[b-1].Time
		if c.Height != int64(b) {
			rep.Violate("C09", "reopen", "reopened at height %d instead of %d (%s)", c.Height, b, desc)
			return
		}
		// Opening may itself write; count from here.
		fd.failAt = len(fd.log) + r.Intn(hi-lo)
		died := false
		func() {
			defer func() {
				if p := recover(); p != nil {
					died = true
				}
			}()
			for i := b; i < nb && !died; i++ {
				if _, err := c.Step(ref.plan.Blocks[i]); err != nil {
					died = true
				}
			}
		}()
		if died {
			rep.Count("nodes_stopped_by_write_errors", 1)
		}
		if fd.failed == 0 {
			continue
		}
		rep.Count("write_faults", int64(fd.failed))
		rep.Count("crash_points", 1)
		bad := resume(ref, fd.DB, int64(b), int64(nb), nb, rep, opts()...)
		if bad != "" {
			rep.Violate("C09", "write-error", "writes refused from write %d of height %d on (%s): %s", fd.failAt, b+1, desc, bad)
		}
	}
	rep.Case(h.digest(), h.trades() > 0, nil)
}

// c09Restart restarts the node between all blocks and after executing without
// committing.
func c09Restart(idx int, seed int64, tier string, rep *Reporter) {
	r := rand.New(rand.NewSource(subSeed(seed, "c09r")))
	h, ref, _, _ := crashHistory(idx, seed, 12+r.Intn(10), rep)
	nb := len(h.res)
	db := dbm.NewMemDB()
	noFast := r.Intn(3) == 0
	var c *Chain
	fail := func(f string, a ...any) { rep.Violate("C09", "restart", f, a...) }
	defer func() {
		if p := recover(); p != nil {
			fail("a restarted node panicked: %v %s", p, stackTop())
		}
	}()
	for i := 0; i < nb; {
		if c == nil || r.Intn(2) == 0 {
			opts, _ := nodeOptsOn(r, noFast)
			c = openChain(db, opts...)
			if c.Height != int64(i) {
				fail("restarted at height %d instead of %d", c.Height, i)
				return
			}
			if i == 0 {
				if err := c.initPlan(ref.plan); err != nil {
					panic(err)
				}
			} else {
				c.Time = ref.plan.Blocks[i-1].Time
				if d := snapDiff(ref.snaps[i], c.Snap()); len(d) > 0 {
					fail("restarted at height %d with another state: %s", i, join(d, 4))
					return
				}
			}
			rep.Count("restarts", 1)
			if i == 0 && r.Intn(2) == 0 {
				_, _ = c.Finalize(ref.plan.Blocks[0])
				c = nil // stopped before the first commit
				continue
			}
		}
		res, err := c.Finalize(ref.plan.Blocks[i])
		if err != nil {
			fail("cannot execute height %d after a restart: %v", i+1, err)
			return
		}
		if got := canon(res); got != ref.want[i] {
			fail("height %d after restarts: %s", i+1, firstDiff(ref.want[i], got))
			return
		}
		if r.Intn(5) == 0 {
			c = nil // stopped between executing and committing
			rep.Count("crash_points", 1)
			continue
		}
		if err := c.Commit(ref.plan.Blocks[i]); err != nil {
			fail("cannot commit height %d: %v", i+1, err)
			return
		}
		rep.Count("blocks_reexecuted", 1)
		i++
	}
	if d := snapDiff(ref.snaps[nb], c.Snap()); nb > 0 && len(d) > 0 {
		fail("after restarts the final state differs: %s", join(d, 4))
	}
	rep.Case(h.digest(), h.trades() > 0, nil)
}

type crashJob struct {
	Plan *Plan
	Want []string
	Hash []string
	Dir  string
	Seed int64
}

func init() {
	extraCmds["crashnode"] = func(args []string) {
		bz, err := os.ReadFile(args[0])
		if err != nil {
			os.Exit(3)
		}
		run, _ := strconv.Atoi(args[1])
		var j crashJob
		if err := json.Unmarshal(bz, &j); err != nil {
			os.Exit(3)
		}
		out := func(f string, a ...any) { fmt.Printf(f+"\n", a...) }
		db, err := dbm.NewGoLevelDB("app", j.Dir, nil)
		if err != nil {
			out("BAD the database does not open again: %v", err)
			return
		}
		opts, desc := nodeOptsOn(rand.New(rand.NewSource(j.Seed+int64(run))), j.Seed%3 == 0)
		defer func() {
			if p := recover(); p != nil {
				out("BAD the restarted node panicked (%s): %s", desc, strings.ReplaceAll(fmt.Sprint(p)+" "+stackTop(), "\n", " "))
			}
		}()
		c := openChain(db, opts...)
		out("START %d %s", c.Height, desc)
		if c.Height == 0 {
			if err := c.initPlan(j.Plan); err != nil {
				out("BAD cannot initialise: %v", err)
				return
			}
		} else if got := fmt.Sprintf("%x", c.App.LastCommitID().Hash); got != j.Hash[c.Height] {
			out("BAD restarted at height %d with hash %s", c.Height, got)
			return
		}
		for c.Height < int64(len(j.Plan.Blocks)) {
			b := j.Plan.Blocks[c.Height]
			r, err := c.Finalize(b)
			if err != nil {
				out("BAD height %d: %v", c.Height+1, err)
				return
			}
			if got := canon(r); got != j.Want[c.Height] {
				out("BAD height %d: %s", c.Height+1, strings.ReplaceAll(firstDiff(j.Want[c.Height], got), "\n", " "))
				return
			}
			out("F %d", c.Height+1)
			if err := c.Commit(b); err != nil {
				out("BAD commit %d: %v", c.Height+1, err)
				return
			}
			out("C %d", c.Height)
		}
		out("DONE")
	}
}

// c09Kill kills a node process working on a real database directory.
func c09Kill(idx int, seed int64, tier string, rep *Reporter) {
	r := rand.New(rand.NewSource(subSeed(seed, "c09k")))
	h, ref, _, _ := crashHistory(idx, seed, 16, rep)
	d := workDir()
	defer os.RemoveAll(d)
	j := crashJob{Plan: ref.plan, Want: ref.want, Hash: ref.hash, Dir: d, Seed: r.Int63()}
	bz, err := json.Marshal(j)
	if err != nil {
		panic(err)
	}
	jf := filepath.Join(d, "job.json")
	if err := os.WriteFile(jf, bz, 0o644); err != nil {
		rep.Count("child_not_run", 1)
		return
	}
	committed := int64(0)
	var starts []string
	for run := 0; run < 12; run++ {
		cmd := exec.Command(os.Args[0], "crashnode", jf, fmt.Sprint(run))
		cmd.Dir = d
		var eb bytes.Buffer
		cmd.Stderr = &eb
		po, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			rep.Count("child_not_run", 1)
			return
		}
		stopAfter := 2 + r.Intn(8)
		if run == 11 {
			stopAfter = 1 << 30
		}
		delay := time.Duration(r.Intn(6000)) * time.Microsecond
		sc := bufio.NewScanner(po)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		lines, done, killed, bad := 0, false, false, ""
		for sc.Scan() {
			t := sc.Text()
			lines++
			switch {
			case strings.HasPrefix(t, "START "):
				hs, desc, _ := strings.Cut(t[6:], " ")
				hh, _ := strconv.ParseInt(hs, 10, 64)
				starts = append(starts, fmt.Sprintf("%d (committed %d, %s)", hh, committed, desc))
				if hh < committed {
					bad = fmt.Sprintf("restarted at height %d although height %d had been committed", hh, committed)
				}
			case strings.HasPrefix(t, "C "):
				committed, _ = strconv.ParseInt(t[2:], 10, 64)
			case strings.HasPrefix(t, "BAD "):
				bad = t[4:]
			case t == "DONE":
				done = true
			}
			if lines >= stopAfter && !done && !killed && committed > 0 {
				time.Sleep(delay)
				_ = cmd.Process.Kill()
				killed = true
			}
		}
		err := cmd.Wait()
		rep.Count("node_runs", 1)
		if bad != "" {
			rep.Violate("C09", "kill", "after killing the node process %d times: %s; started at heights %s", run, bad, strings.Join(starts, ", "))
			return
		}
		if done {
			break
		}
		if killed {
			rep.Count("nodes_killed", 1)
			rep.Count("crash_points", 1)
			continue
		}
		if err != nil && strings.Contains(eb.String(), "panic") {
			rep.Violate("C09", "kill", "the restarted node process died by itself: %s", clip(eb.String(), 600))
			return
		}
	}
	rep.Case(h.digest(), h.trades() > 0, nil)
}

func init() {
	register(&Check{Prop: "C09", Level: "fault_enumeration",
		Rule: "A case is one random history on a node whose database writes are recorded as atomic units. Crash points are prefixes of that log: every write of at least one block per case, one random write of every other block; further cases refuse writes from a random one on, restart between blocks and between execution and commit, and kill a node process on disk. Non-trivial when at least one batch traded.",
		Assumptions: []string{"A crash keeps a prefix of the atomic writes in the order issued (the guarantee of the supported databases).",
			"The local setting of the store library's fast nodes does not change between starts of one database.",
			"Blocks after the crash are replayed as the consensus engine would, from the application's last committed height."},
		Families: []*Family{
			{Name: "prefixes", N: n(56, 500), Run: c09Prefix},
			{Name: "write-errors", N: n(24, 300), Run: c09Fail},
			{Name: "restarts", N: n(40, 500), Run: c09Restart},
			{Name: "kills", N: n(8, 120), Run: c09Kill},
		},
		MinObserved: map[string]int64{"crash_points": 500, "restarts": 500, "nodes_killed": 10},
	})
}
