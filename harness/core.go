// Package main is the runtime-monitoring harness for boltnd: it drives the
// real code (built from /repo's working tree) with generated, hostile and
// concurrent workloads, while independent monitors judge what they observe.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// violation is the panic value used to abort a case.
type violation struct{ msg string }

// Error is what is printed if a violation ends the process, as it does in a
// goroutine of its own.
func (v violation) Error() string { return violationMark + v.msg }

const violationMark = "VERIF-VIOLATION: "

// inconclusive aborts the run without a verdict.
type inconclusive struct{ msg string }

// V collects what a check observed, and its verdict.
type V struct {
	Prop string
	Tier string
	Seed int64
	Rule string

	// OnlyCase limits the run to one case (replay), -1 for all.
	OnlyCase  int
	OnlyPhase string

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counters map[string]int64
	samples  []interface{}
	perPhase map[string]int
	assume   []string

	failed  *failure
	incon   string
	started time.Time
}

type failure struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     int64  `json:"seed"`
	Phase    string `json:"phase"`
	Case     int    `json:"case"`
	What     string `json:"what"`
	Stack    string `json:"stack,omitempty"`
	Rerun    string `json:"rerun"`
}

// Thorough reports whether this is a thorough run.
func (v *V) Thorough() bool { return v.Tier == "thorough" }

// N picks a case count by tier.
func (v *V) N(quick, thorough int) int {
	if v.Thorough() {
		return thorough
	}
	return quick
}

// Count adds to a named counter of observed events.
func (v *V) Count(name string, n int64) {
	v.mu.Lock()
	v.counters[name] += n
	v.mu.Unlock()
}

func (v *V) counted(name string) int64 {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.counters[name]
}

// Distinct records one observed non-trivial state, input or interleaving.
func (v *V) Distinct(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	v.mu.Lock()
	v.distinct[h.Sum64()] = struct{}{}
	v.mu.Unlock()
}

// Sample keeps a few written-out cases for the evidence.
func (v *V) Sample(phase string, s interface{}) {
	v.mu.Lock()
	defer v.mu.Unlock()
	if v.perPhase[phase] >= 2 || len(v.samples) >= 24 {
		return
	}
	v.perPhase[phase]++
	v.samples = append(v.samples, map[string]interface{}{
		"phase": phase, "case": s,
	})
}

// Assume records an assumption in the evidence.
func (v *V) Assume(s string) { v.assume = append(v.assume, s) }

// Fail reports a violation of the property by the current case.
func Fail(format string, args ...interface{}) {
	panic(violation{fmt.Sprintf(format, args...)})
}

// Inconclusive ends the run without a verdict.
func Inconclusive(format string, args ...interface{}) {
	panic(inconclusive{fmt.Sprintf(format, args...)})
}

// must is for operations of the harness itself that can't fail.
func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

func caseSeed(seed int64, phase string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, phase, i)
	return int64(h.Sum64())
}

const repoPkg = "github.com/carlakc/boltnd"

// fromRepo reports whether a stack trace passes through the code under test.
func fromRepo(stack string) bool {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, repoPkg) ||
			strings.HasPrefix(l, "created by "+repoPkg) ||
			repoFile(l) {
			return true
		}
	}
	return false
}

// repoFile reports whether a line of a stack trace is a place in the code under
// test, which may have been inlined elsewhere.
func repoFile(l string) bool {
	l = strings.TrimLeft(l, " \t")
	return strings.HasPrefix(l, "/") && strings.Contains(l, "/repo/") &&
		!strings.Contains(l, "/pkg/mod/")
}

// Cases runs n cases of a phase on the given number of workers. Each case gets
// a source of randomness that only depends on seed, phase and index.
func (v *V) Cases(phase string, workers, n int,
	f func(i int, r *rand.Rand)) {

	if v.OnlyPhase != "" && v.OnlyPhase != phase {
		return
	}
	if v.stopped() {
		return
	}

	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || v.stopped() {
					return
				}
				if v.OnlyCase >= 0 && i != v.OnlyCase {
					continue
				}
				v.one(phase, i, f)
			}
		}()
	}
	wg.Wait()
}

// Background runs the cases of a phase while others run. The function that it
// returns waits for them.
func (v *V) Background(phase string, n int,
	f func(i int, r *rand.Rand)) func() {

	done := make(chan struct{})
	go func() {
		defer close(done)
		v.Cases(phase, n, n, f)
	}()
	return func() { <-done }
}

// Idle waits for a while, in which nothing happens to the case.
func (v *V) Idle(d time.Duration) {
	for end := time.Now().Add(d); time.Now().Before(end); {
		if v.stopped() {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
}

// idleTime is longer than the usual limits on how long something may be idle.
func (v *V) idleTime(r *rand.Rand) time.Duration {
	return time.Duration(v.N(62, 310))*time.Second +
		time.Duration(r.Intn(3000))*time.Millisecond
}

func (v *V) stopped() bool {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.failed != nil || v.incon != ""
}

// report stores the first violation.
func (v *V) report(phase string, i int, what, stack string) {
	v.mu.Lock()
	defer v.mu.Unlock()
	if v.failed != nil {
		return
	}
	v.failed = &failure{
		Property: v.Prop, Tier: v.Tier, Seed: v.Seed, Phase: phase,
		Case: i, What: what, Stack: stack,
		Rerun: fmt.Sprintf("VERIF_SEED=%d ./check.sh %s %s --phase %s "+
			"--case %d", v.Seed, v.Prop, v.Tier, phase, i),
	}
}

func (v *V) one(phase string, i int, f func(i int, r *rand.Rand)) {
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		stack := string(debug.Stack())
		switch e := x.(type) {
		case violation:
			v.report(phase, i, e.msg, "")
		case inconclusive:
			v.mu.Lock()
			v.incon = fmt.Sprintf("%s/%d: %s", phase, i, e.msg)
			v.mu.Unlock()
		default:
			if !fromRepo(stack) {
				fmt.Fprintf(os.Stderr, "harness panic in "+
					"%s/%d: %v\n%s\n", phase, i, x, stack)
				v.mu.Lock()
				v.incon = fmt.Sprintf("harness panic: %v", x)
				v.mu.Unlock()
				return
			}
			v.report(phase, i, fmt.Sprintf("panic in the code "+
				"under test: %v", x), stack)
		}
	}()
	atomic.AddInt64(&v.evals, 1)
	f(i, rand.New(rand.NewSource(caseSeed(v.Seed, phase, i))))
}

// Require fails the run as inconclusive if a monitor observed too little.
func (v *V) Require(name string, min int64) {
	if v.OnlyCase >= 0 || v.OnlyPhase != "" || v.stopped() {
		return
	}
	v.mu.Lock()
	defer v.mu.Unlock()
	if v.counters[name] < min {
		v.incon = fmt.Sprintf("monitor observed only %d %q, wanted "+
			"at least %d", v.counters[name], name, min)
	}
}

// finish writes the evidence and gives the exit code.
func (v *V) finish(root string, quiet bool) int {
	keys := make([]string, 0, len(v.counters))
	for k := range v.counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)

	if v.samples == nil {
		v.samples = []interface{}{"none"}
	}
	cov := map[string]interface{}{
		"evaluations":         v.evals,
		"distinct_nontrivial": len(v.distinct),
		"rule":                v.Rule,
		"samples":             v.samples,
		"observed":            v.counters,
	}
	n := 0
	if v.failed != nil {
		n = 1
	}
	ev := map[string]interface{}{
		"property": v.Prop, "tier": v.Tier, "seed": v.Seed,
		"level": "exploration", "coverage": cov,
		"wall_s":     time.Since(v.started).Seconds(),
		"violations": n,
	}
	if len(v.assume) != 0 {
		ev["assumptions"] = v.assume
	}
	dir := filepath.Join(root, "evidence")
	must(os.MkdirAll(dir, 0755))
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(dir, v.Prop+".json"), b, 0644))

	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct, %.1fs\n",
		v.Prop, v.Tier, v.Seed, v.evals, len(v.distinct),
		time.Since(v.started).Seconds())
	for _, k := range keys {
		fmt.Printf("  observed %s: %d\n", k, v.counters[k])
	}

	if v.failed != nil {
		writeViolation(root, v.failed)
		return 1
	}
	if v.incon != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", v.Prop, v.incon)
		return 3
	}
	fmt.Printf("HELD property=%s on everything observed\n", v.Prop)
	return 0
}

func writeViolation(root string, f *failure) {
	dir := filepath.Join(root, "replay")
	must(os.MkdirAll(dir, 0755))
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", f.Property, f.Seed))
	b, err := json.MarshalIndent(f, "", " ")
	must(err)
	must(os.WriteFile(p, b, 0644))
	what := f.What
	if len(what) > 1500 {
		what = what[:1500] + "..."
	}
	fmt.Printf("%s phase %s case %d: %s\n", f.Property, f.Phase, f.Case,
		what)
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, p)
}

// goroutines returns the stacks of all goroutines but the caller's.
func goroutines() []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	all := strings.Split(string(buf), "\n\n")
	return all[1:]
}

// repoGoroutines returns the goroutines that run, or were started by, code
// under test and match the filter.
func repoGoroutines() []string {
	var out []string
	for _, g := range goroutines() {
		if fromRepo(g) {
			out = append(out, g)
		}
	}
	return out
}

// uniq fails when a value comes up twice.
type uniq struct {
	mu   sync.Mutex
	seen map[string]bool
}

func newUniq() *uniq { return &uniq{seen: map[string]bool{}} }

func (u *uniq) add(what string, b []byte) {
	u.mu.Lock()
	dup := u.seen[what+string(b)]
	u.seen[what+string(b)] = true
	u.mu.Unlock()
	if dup {
		Fail("%s %x occurred before", what, b)
	}
}
