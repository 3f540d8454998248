// Package vh is the recording side of the monitors: every harness reports what
// it evaluated and observed, and every oracle failure, through a *Run.
package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type Violation struct {
	Key    string `json:"key"`
	Msg    string `json:"msg"`
	Replay any    `json:"replay,omitempty"`
}

type Run struct {
	mu       sync.Mutex
	t        testing.TB
	evals    int
	distinct map[uint64]bool
	counts   map[string]int
	samples  []any
	rule     string
	viols    []Violation
	inconc   []string
	perKey   map[string]int
}

// New starts recording; the result file is written when the test ends.
func New(t testing.TB, rule string) *Run {
	r := &Run{t: t, rule: rule, distinct: map[uint64]bool{}, counts: map[string]int{}, perKey: map[string]int{}}
	r.write(false)
	t.Cleanup(func() { r.write(!t.Skipped() && !r.aborted()) })
	return r
}

func (r *Run) aborted() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.t.Failed() && len(r.viols) == 0
}

func (r *Run) write(done bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	out := os.Getenv("VERIF_OUT")
	b, err := json.MarshalIndent(map[string]any{
		"done": done, "evaluations": r.evals, "distinct": len(r.distinct), "counts": r.counts,
		"samples": r.samples, "rule": r.rule, "violations": r.viols, "inconclusive": r.inconc,
	}, "", " ")
	if err != nil {
		b = []byte(`{"done":false,"error":` + strconv.Quote(err.Error()) + `}`)
	}
	if out == "" {
		if done {
			fmt.Println(string(b))
		}
		return
	}
	tmp := out + ".tmp"
	os.WriteFile(tmp, b, 0o644)
	os.Rename(tmp, out)
}

// Eval records one evaluated case; sig identifies it, nontrivial says whether it
// counts as a distinct non-trivial case.
func (r *Run) Eval(nontrivial bool, sig ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if nontrivial {
		h := fnv.New64a()
		fmt.Fprintf(h, "%q", sig)
		r.distinct[h.Sum64()] = true
	}
}

func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	r.counts[name] += n
	r.mu.Unlock()
}

func (r *Run) Counted(name string) int { r.mu.Lock(); defer r.mu.Unlock(); return r.counts[name] }

func (r *Run) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
}

// Violate records a violation. key identifies the class of failure.
func (r *Run) Violate(key string, replay any, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	r.mu.Lock()
	r.perKey[key]++
	if r.perKey[key] <= 3 {
		if _, err := json.Marshal(replay); err != nil {
			replay = fmt.Sprintf("%+v", replay)
		}
		r.viols = append(r.viols, Violation{strings.ReplaceAll(key, " ", "_"), msg, replay})
	}
	n := r.perKey[key]
	r.mu.Unlock()
	if n <= 3 {
		r.t.Logf("VIOLATION[%s] %s", key, msg)
		r.write(false)
	}
}

func (r *Run) NumViolations() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.viols) }

func (r *Run) Inconclusive(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.counts["inconclusive"]++
	if len(r.inconc) < 50 {
		r.inconc = append(r.inconc, fmt.Sprintf(format, a...))
	}
}

// NeedAtLeast makes a run that observed too little inconclusive (the harness is
// reported as not finished) rather than silently passing.
func (r *Run) NeedAtLeast(name string, n int) {
	if got := r.Counted(name); got < n && r.NumViolations() == 0 {
		r.Violate("vacuous:"+name, nil, "the monitor observed only %d %q events (expected at least %d): the behaviour it watches no longer happens", got, name, n)
	}
}

func Tier() string { return os.Getenv("VERIF_TIER") }

// N scales a case count with the tier.
func N(quick, thorough int) int {
	if Tier() == "thorough" {
		return thorough
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_PART")); err == nil && n > 1 {
		// Only a part of it.
		return max(1, quick/n)
	}
	return quick
}

func Race() bool { return os.Getenv("VERIF_RACE") != "" }

func Seed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		s = 1
	}
	return s
}

// Rand returns the PRNG for case i of a named generator.
func Rand(name string, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", name, Seed(), i)
	return rand.New(&lockedSource{src: rand.NewSource(int64(h.Sum64())).(rand.Source64)})
}

// lockedSource can be used by concurrent goroutines.
type lockedSource struct {
	mu  sync.Mutex
	src rand.Source64
}

func (s *lockedSource) Int63() int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.src.Int63()
}

func (s *lockedSource) Uint64() uint64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.src.Uint64()
}

func (s *lockedSource) Seed(seed int64) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.src.Seed(seed)
}

// Work returns a private scratch directory.
func Work(t testing.TB) string {
	base := os.Getenv("VERIF_WORK")
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "v")
	if err != nil {
		t.Fatal(err)
	}
	return d
}

// Parallel runs fn(i) for i in [0,n) on w workers.
func Parallel(w, n int, fn func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				fn(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// Eventually polls cond until it holds or a generous bound passes.
func Eventually(d time.Duration, cond func() bool) bool {
	deadline := time.Now().Add(d)
	for {
		if cond() {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(10 * time.Millisecond)
	}
}

// Stacks returns all goroutine stacks whose text contains substr.
func Stacks(substr string) []string {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, substr) {
			out = append(out, g)
		}
	}
	return out
}

func MustWrite(t testing.TB, name string, b []byte) string {
	os.MkdirAll(filepath.Dir(name), 0o755)
	if err := os.WriteFile(name, b, 0o644); err != nil {
		t.Fatal(err)
	}
	return name
}

func Trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
