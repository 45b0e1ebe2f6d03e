package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
)

// Violation is one observed breach of a property.
type Violation struct {
	Property string   `json:"property"`
	Key      string   `json:"key"`  // stable signature of what fails (used by known findings)
	What     string   `json:"what"` // human readable
	Family   string   `json:"family"`
	Index    int      `json:"index"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Trace    []string `json:"trace,omitempty"`
}

const maxViolationsPerKey = 3

// Reporter collects what the monitors of one worker observed.
type Reporter struct {
	Prop       string               `json:"prop"`
	Counts     map[string]int64     `json:"counts"`
	Digests    map[string]struct{}  `json:"-"`
	DigestList []string             `json:"digests"`
	States     map[uint64]struct{}  `json:"-"`
	Evals      int64                `json:"evals"`
	Steps      int64                `json:"steps"`
	Samples    []string             `json:"samples"`
	Violations map[string]Violation `json:"violations"`
	Halts      []string             `json:"halts"`

	fam      string
	idx      int
	seed     int64
	tier     string
	curTrace []string
	perKey   map[string]int
}

func NewReporter(prop, tier string, seed int64) *Reporter {
	return &Reporter{Prop: prop, tier: tier, seed: seed, Counts: map[string]int64{}, Digests: map[string]struct{}{},
		Violations: map[string]Violation{}, perKey: map[string]int{}}
}

func (r *Reporter) Count(k string, n int64) {
	if r != nil {
		r.Counts[k] += n
	}
}

func (r *Reporter) Max(k string, n int64) {
	if r != nil && r.Counts[k] < n {
		r.Counts[k] = n
	}
}

// Case closes one executed case.
func (r *Reporter) Case(digest string, nontrivial bool, sample func() string) {
	r.Evals++
	if !nontrivial {
		return
	}
	h := sha256.Sum256([]byte(digest))
	k := hex.EncodeToString(h[:8])
	if _, ok := r.Digests[k]; ok {
		return
	}
	r.Digests[k] = struct{}{}
	if len(r.Samples) < 2 && sample != nil {
		s := sample()
		if len(s) > 3000 {
			s = s[:3000] + "..."
		}
		r.Samples = append(r.Samples, s)
	}
}

// Bulk adds cases of which only the number matters (distinct by construction is
// measured by the digest of the chunk).
func (r *Reporter) Violate(prop, key, format string, args ...any) {
	if r == nil || prop != r.Prop {
		return
	}
	what := fmt.Sprintf(format, args...)
	full := fmt.Sprintf("%s|%s", prop, key)
	r.perKey[full]++
	if r.perKey[full] > maxViolationsPerKey {
		return
	}
	tr := r.curTrace
	if len(tr) > 400 {
		tr = tr[len(tr)-400:]
	}
	id := fmt.Sprintf("%s|%s|%d|%d", full, r.fam, r.idx, r.perKey[full])
	r.Violations[id] = Violation{Property: prop, Key: key, What: what, Family: r.fam, Index: r.idx, Seed: r.seed, Tier: r.tier,
		Trace: append([]string(nil), tr...)}
}

func (r *Reporter) Finish() {
	r.DigestList = sortedKeys(r.Digests)
}

func (r *Reporter) VList() []Violation {
	ks := make([]string, 0, len(r.Violations))
	for k := range r.Violations {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := make([]Violation, 0, len(ks))
	for _, k := range ks {
		out = append(out, r.Violations[k])
	}
	return out
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func join(ss []string, n int) string {
	if len(ss) > n {
		return strings.Join(ss[:n], "; ") + fmt.Sprintf("; ... (%d more)", len(ss)-n)
	}
	return strings.Join(ss, "; ")
}
