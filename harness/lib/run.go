// Package lib holds what every check shares: seed, evidence, verdicts.
package lib

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Run collects what a check observed and its verdict.
type Run struct {
	sync.Mutex
	Prop, Tier, Level, Rule string
	Seed                    int64
	Evals                   int
	distinct                map[uint64]struct{}
	samples                 []any
	stats                   map[string]int64
	viol                    []violation
	notes                   []string
	start                   time.Time
	rnd                     *rand.Rand
	known                   map[string]string
	tail                    bool
}

type violation struct {
	Sig    string `json:"signature"`
	Detail string `json:"detail"`
	Replay any    `json:"replay"`
}

// VerifDir is the root of the verification tree.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// NewRun starts the check of a property.
func NewRun(prop, level, rule string) *Run {
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	r := &Run{Prop: prop, Tier: tier, Level: level, Rule: rule, Seed: seed,
		distinct: map[uint64]struct{}{}, stats: map[string]int64{}, start: time.Now(),
		rnd: rand.New(rand.NewSource(seed*7919 + int64(hash(prop)%100000))), known: knownFindings(prop)}
	if tier == "quick" { // a run that does not come to its end says what it found so far
		time.AfterFunc(820*time.Second, func() {
			if r.Failed() {
				r.Finish()
			}
			fmt.Printf("%s: no verdict, the run does not come to its end\n", prop)
			os.Exit(3)
		})
	}
	return r
}

func hash(s string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	return h.Sum64()
}

// Thorough tells whether the thorough tier runs.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks the number of cases of the tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Sub gives an independent generator for a named part of the check.
func (r *Run) Sub(name string) *rand.Rand {
	return rand.New(rand.NewSource(r.Seed*1000003 + int64(hash(r.Prop+name)&0xfffffff)))
}

// Case counts one evaluation; key identifies the distinct non-trivial situation ("" when trivial).
func (r *Run) Case(key string) {
	r.Lock()
	defer r.Unlock()
	r.Evals++
	if key != "" {
		r.distinct[hash(key)] = struct{}{}
	}
}

// Sample keeps a few real cases for the evidence.
func (r *Run) Sample(s any) {
	r.Lock()
	defer r.Unlock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, freeze(s))
	}
}

// Count adds to a named counter of the evidence.
func (r *Run) Count(name string, n int64) {
	r.Lock()
	defer r.Unlock()
	r.stats[name] += n
}

// Max keeps the maximum of a named gauge.
func (r *Run) Max(name string, n int64) {
	r.Lock()
	defer r.Unlock()
	if n > r.stats[name] {
		r.stats[name] = n
	}
}

// Note adds a remark (e.g. an inconclusive part) to the evidence.
func (r *Run) Note(f string, a ...any) {
	r.Lock()
	defer r.Unlock()
	if len(r.notes) < 50 {
		r.notes = append(r.notes, fmt.Sprintf(f, a...))
	}
}

// Fail records a violation; sig identifies the failing behaviour for the known-findings file.
func (r *Run) Fail(sig string, replay any, f string, a ...any) {
	r.Lock()
	defer r.Unlock()
	if len(r.viol) < 200 {
		r.viol = append(r.viol, violation{Sig: sig, Detail: fmt.Sprintf(f, a...), Replay: freeze(replay)})
	}
	if _, ok := r.known[sig]; !ok && !r.tail { // what is broken makes the rest slow: look further for a while only
		r.tail = true
		time.AfterFunc(75*time.Second, r.Finish)
	}
}

// freeze renders a value now, as it may change before it is written.
func freeze(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		b, _ = json.Marshal(fmt.Sprintf("%v", v))
	}
	return json.RawMessage(b)
}

// Failed tells whether a violation was recorded.
func (r *Run) Failed() bool {
	r.Lock()
	defer r.Unlock()
	return len(r.viol) > 0
}

// NFailed is the number of recorded violations.
func (r *Run) NFailed() int {
	r.Lock()
	defer r.Unlock()
	return len(r.viol)
}

func knownFindings(prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(VerifDir(), "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+prop+" ")
		f := strings.SplitN(rest, " ", 2)
		if strings.HasPrefix(f[0], "sig=") && len(f) == 2 {
			out[strings.TrimPrefix(f[0], "sig=")] = f[1]
		}
	}
	return out
}

// Finish writes the evidence, prints the verdict and exits.
func (r *Run) Finish() {
	r.Lock()
	defer r.Unlock()
	known := r.known
	var fresh []violation
	seen := map[string]bool{}
	for _, v := range r.viol {
		if what, ok := known[v.Sig]; ok {
			seen[what] = true
			continue
		}
		fresh = append(fresh, v)
	}
	cov := map[string]any{
		"evaluations":         r.Evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.Rule,
		"samples":             r.samples,
	}
	if r.samples == nil {
		cov["samples"] = []any{}
	}
	if len(r.stats) > 0 {
		cov["observed"] = r.stats
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	if len(fresh) > 0 {
		cov["violations"] = len(fresh)
	}
	ev := map[string]any{"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "wall_s": float64(int(time.Since(r.start).Seconds()*100)) / 100}
	dir := filepath.Join(VerifDir(), "evidence")
	_ = os.MkdirAll(dir, 0755)
	writeJSON(filepath.Join(dir, r.Prop+".json"), ev)
	for what := range seen {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, what)
	}
	keys := make([]string, 0)
	for k := range r.stats {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s: %d evaluations, %d distinct non-trivial", r.Prop, r.Evals, len(r.distinct))
	for _, k := range keys {
		fmt.Printf(", %s=%d", k, r.stats[k])
	}
	fmt.Println()
	for _, n := range r.notes {
		fmt.Println("note:", n)
	}
	if len(fresh) == 0 {
		os.Exit(0)
	}
	rp := filepath.Join(dir, r.Prop+".replay.json")
	writeJSON(rp, map[string]any{"property": r.Prop, "seed": r.Seed, "tier": r.Tier, "violations": fresh})
	for i, v := range fresh {
		if i == 8 {
			fmt.Printf("... and %d more\n", len(fresh)-i)
			break
		}
		d := v.Detail
		if len(d) > 1500 {
			d = d[:1500] + "..."
		}
		fmt.Printf("  [%s] %s\n", v.Sig, d)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
	os.Exit(1)
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		b, _ = json.Marshal(fmt.Sprintf("%v", v))
	}
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, "write", path, err)
	}
}

// Guard runs f and turns a panic into a description.
func Guard(f func()) (p any) {
	defer func() {
		if e := recover(); e != nil {
			p = e
		}
	}()
	f()
	return nil
}
