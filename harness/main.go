package main

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc/grpclog"
)

// check is one property's monitor and workload.
type check struct {
	rule string
	run  func(v *V)
}

var checks = map[string]check{}

func register(id, rule string, run func(v *V)) {
	checks[id] = check{rule, run}
}

func main() {
	var (
		prop  = flag.String("prop", "", "property id")
		tier  = flag.String("tier", "quick", "quick or thorough")
		phase = flag.String("phase", "", "only this phase")
		one   = flag.Int("case", -1, "only this case")
		root  = flag.String("root", "/verif", "where to write evidence")
		child = flag.Bool("child", false, "internal")
	)
	flag.Parse()
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(io.Discard, io.Discard,
		io.Discard))

	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		must(err)
		seed = n
	}

	c, ok := checks[*prop]
	if !ok {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}

	if !*child {
		os.Exit(supervise(*prop, *tier, *root, seed))
	}

	// Where a copy is checked, its source is not in /repo.
	src := os.Getenv("VERIF_SRC")
	if src == "" {
		src = "/repo"
	}
	loadDict(src)

	v := &V{
		Prop: *prop, Tier: *tier, Seed: seed, Rule: c.rule,
		OnlyCase: *one, OnlyPhase: *phase,
		distinct: map[uint64]struct{}{},
		counters: map[string]int64{},
		perPhase: map[string]int{},
		started:  time.Now(),
	}
	c.run(v)
	os.Exit(v.finish(*root, false))
}

// supervise runs the check in a child process, so that crashes of the whole
// process (a panic in one of the daemon's goroutines, a concurrent map write,
// a report of the race detector) are observed and attributed.
func supervise(prop, tier, root string, seed int64) int {
	args := append([]string{"-child"}, os.Args[1:]...)
	cmd := exec.Command(os.Args[0], args...)
	var errBuf lockedBuffer
	var outBuf bytes.Buffer
	cmd.Stdout = io.MultiWriter(&outBuf, os.Stdout)
	cmd.Stderr = io.MultiWriter(&errBuf, os.Stderr)
	cmd.Env = append(os.Environ(),
		"GORACE=halt_on_error=0 exitcode=66 history_size=3",
		"GOTRACEBACK=all")

	limit := 10 * time.Minute
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	must(cmd.Start())
	timer := time.AfterFunc(limit, func() { _ = cmd.Process.Kill() })
	// A race that was reported is the verdict, the rest need not run.
	ended := make(chan struct{})
	go func() {
		for raceEnabled {
			select {
			case <-ended:
				return
			case <-time.After(time.Second):
			}
			if raceReport(errBuf.String()) != "" {
				_ = cmd.Process.Kill()
				return
			}
		}
	}()
	err := cmd.Wait()
	close(ended)
	killed := !timer.Stop()

	text := errBuf.String()
	if what := raceReport(text); what != "" {
		writeViolation(root, &failure{
			Property: prop, Tier: tier, Seed: seed, Phase: "race",
			What: "data race in the code under test\n" + what,
			Rerun: fmt.Sprintf("VERIF_SEED=%d ./check.sh %s %s",
				seed, prop, tier),
		})
		return 1
	}

	code := cmd.ProcessState.ExitCode()
	switch {
	case err == nil:
		return 0
	case killed:
		fmt.Printf("INCONCLUSIVE property=%s watchdog\n", prop)
		return 3
	case code == 1:
		return 1
	case code == 66 && !strings.Contains(outBuf.String(), "INCONCLUSIVE"):
		fmt.Printf("NOTE property=%s: a race outside of the code "+
			"under test is ignored\n", prop)
		return 0
	case code == 2:
		if what := crashReport(text); what != "" {
			writeViolation(root, &failure{
				Property: prop, Tier: tier, Seed: seed,
				Phase: "crash",
				What:  "the process crashed: " + what,
				Rerun: fmt.Sprintf("VERIF_SEED=%d ./check.sh "+
					"%s %s", seed, prop, tier),
			})
			return 1
		}
	}
	fmt.Printf("ERROR property=%s child: %v\n", prop, err)
	return 3
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *lockedBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *lockedBuffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}

// raceReport returns the first data race in which code under test made one of
// the accesses, itself or in a library that it called.
func raceReport(text string) string {
	for _, blk := range strings.Split(text, "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		for _, sec := range strings.Split(blk, "\n\n") {
			if !accessRe.MatchString(sec) {
				continue
			}
			lines := strings.Split(sec, "\n")
			for i, l := range lines {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, repoPkg) {
					return blk
				}
				if !strings.HasPrefix(l, "main.") {
					continue
				}
				// Unless it was inlined.
				if i+1 < len(lines) && repoFile(lines[i+1]) {
					return blk
				}
				break
			}
		}
	}
	return ""
}

var accessRe = regexp.MustCompile(`(?mi)^\s*(previous )?(atomic )?(read|write) at `)

var crashRe = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*)$`)

// crashReport returns the reason for a crash of the process, if the goroutine
// that crashed ran code under test.
func crashReport(text string) string {
	if i := strings.Index(text, violationMark); i >= 0 {
		what := text[i+len(violationMark):]
		if j := strings.Index(what, "\n\ngoroutine "); j >= 0 {
			what = what[:j]
		}
		return what
	}
	loc := crashRe.FindStringIndex(text)
	if loc == nil {
		return ""
	}
	rest := text[loc[0]:]
	parts := strings.SplitN(rest, "\n\n", 3)
	first := parts[0]
	if len(parts) > 1 {
		first += "\n" + parts[1]
	}
	if strings.HasPrefix(rest, "fatal error: all goroutines are asleep") {
		first = rest
	}
	if fromRepo(first) {
		if len(first) > 4000 {
			first = first[:4000]
		}
		return first
	}
	return ""
}
