// Package vh is the shared runtime of the property harness: it wraps
// rapid.Check with case accounting, time budgets, a per-case watchdog and a
// dictionary of literals found in the code under test.
package vh

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Opt describes one sub-check.
type Opt struct {
	N    int    // cases in the quick tier
	Max  int    // cap on cases in the thorough tier (0: none)
	Rule string // how cases are made and which are non-trivial
}

// C is what a property gets: the rapid test plus accounting.
type C struct {
	*rapid.T
	r *recorder
}

type recorder struct {
	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	samples  []string
	classes  map[string]int64
	next     int64
	rule     string
	t        *testing.T
}

var (
	caseStart atomic.Int64 // wall ns; 0 = none running
	caseCPU   atomic.Int64
	lastNote  atomic.Value
	journal   *os.File
	replaying = os.Getenv("VH_REPLAY") != ""
	fails     atomic.Int64
)

func cpuNs() int64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Run checks prop on generated cases.
func Run(t *testing.T, o Opt, prop func(c *C)) {
	t.Helper()
	if fuzzing != nil {
		fuzzOne(t, prop)
		return
	}
	if p := os.Getenv("VH_MIN"); p != "" {
		minimise(t, prop, p, p+".fail")
		return
	}
	n := o.N * envInt("VH_QMULT", 1)
	if Thorough() {
		n *= envInt("VH_MULT", 40)
		if o.Max > 0 && n > o.Max {
			n = o.Max
		}
	}
	if v := envInt("VH_N", 0); v > 0 {
		n = v
	}
	if f := flag.Lookup("rapid.checks"); f != nil {
		if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
			t.Fatal(err)
		}
	}
	r := &recorder{distinct: map[uint64]struct{}{}, classes: map[string]int64{}, rule: o.Rule, next: 1, t: t}
	start := time.Now()
	limit := time.Duration(envInt("VH_LIMIT", 60)) * time.Second
	stop := watchdog(t)
	defer stop()
	defer r.write(t, start)
	rapid.Check(t, func(rt *rapid.T) {
		if !replaying && fails.Load() == 0 && time.Since(start) > limit {
			return // budget spent: the remaining cases are not evaluated
		}
		c := &C{T: rt, r: r}
		atomic.AddInt64(&r.evals, 1)
		caseCPU.Store(cpuNs())
		caseStart.Store(time.Now().UnixNano())
		defer caseStart.Store(0)
		ok := false
		defer func() {
			if !ok {
				fails.Add(1) // a failing case: rapid re-runs and shrinks, keep evaluating
			}
		}()
		prop(c)
		ok = !rt.Failed()
	})
}

// Note accounts for the current case; key identifies it.
func (c *C) Note(nontrivial bool, format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	if journal != nil {
		b := s
		if len(b) > 4000 {
			b = b[:4000]
		}
		journal.Truncate(0)
		journal.WriteAt([]byte(b), 0)
	}
	lastNote.Store(s)
	r := c.r
	r.mu.Lock()
	defer r.mu.Unlock()
	if !nontrivial {
		r.classes["trivial"]++
		return
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	if len(r.distinct) < 4_000_000 {
		r.distinct[h.Sum64()] = struct{}{}
	}
	if k := int64(len(r.distinct)); k >= r.next && len(r.samples) < 12 {
		r.next = r.next*3 + 1
		if len(s) > 400 {
			s = s[:400] + "…"
		}
		r.samples = append(r.samples, strings.ToValidUTF8(s, "?"))
	}
}

// Class counts a case class for the evidence.
func (c *C) Class(format string, args ...any) {
	c.r.mu.Lock()
	c.r.classes[fmt.Sprintf(format, args...)]++
	c.r.mu.Unlock()
}

// Add adds n to a case class.
func (c *C) Add(class string, n int) {
	c.r.mu.Lock()
	c.r.classes[class] += int64(n)
	c.r.mu.Unlock()
}

func (r *recorder) write(t *testing.T, start time.Time) {
	path := os.Getenv("VH_STATS")
	if path == "" {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	b, err := json.Marshal(map[string]any{
		"test": t.Name(), "evaluations": atomic.LoadInt64(&r.evals), "distinct": len(r.distinct),
		"rule": r.rule, "samples": r.samples, "classes": r.classes, "wall_s": time.Since(start).Seconds(),
	})
	if err != nil {
		return
	}
	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	if err == nil {
		f.Write(append(b, '\n'))
		f.Close()
	}
}

// watchdog ends the process when one case spins (much CPU time) or is stuck
// (no CPU time) for far longer than any case needs.
func watchdog(t *testing.T) func() {
	if p := os.Getenv("VH_JOURNAL"); p != "" && journal == nil {
		journal, _ = os.Create(p)
	}
	done := make(chan struct{})
	name := t.Name()
	go func() {
		tick := time.NewTicker(500 * time.Millisecond)
		defer tick.Stop()
		for {
			select {
			case <-done:
				return
			case <-tick.C:
			}
			s := caseStart.Load()
			if s == 0 {
				continue
			}
			wall := time.Duration(time.Now().UnixNano() - s)
			cpu := time.Duration(cpuNs() - caseCPU.Load())
			spin := cpu > 45*time.Second
			stuck := wall > 30*time.Second && cpu < time.Second
			if caseStart.Load() == s && (spin || stuck) {
				n, _ := lastNote.Load().(string)
				fmt.Fprintf(os.Stderr, "VH-HANG test=%s wall=%v cpu=%v case=%s\n", name, wall, cpu, n)
				pprof.Lookup("goroutine").WriteTo(os.Stderr, 1)
				os.Exit(77)
			}
		}
	}()
	return func() { close(done) }
}

// B collects findings made by goroutines of a bubble.
type B struct {
	mu   sync.Mutex
	errs []string
}

// Errorf records a finding; it never stops the caller.
func (b *B) Errorf(format string, args ...any) {
	b.mu.Lock()
	if len(b.errs) < 20 {
		b.errs = append(b.errs, fmt.Sprintf(format, args...))
	}
	b.mu.Unlock()
}

// Go starts f in a goroutine of the bubble; a panic in it is a finding.
func (b *B) Go(f func()) {
	go func() {
		defer func() {
			if p := recover(); p != nil {
				b.Errorf("panic: %v", p)
			}
		}()
		f()
	}()
}

// Bubble runs f under fake time (testing/synctest): time stands still until
// every goroutine is blocked, and a deadlock of all of them is a finding, as
// are panics and whatever was reported through b. f must not draw or fail
// through rapid.
func (c *C) Bubble(f func(b *B)) {
	b := &B{}
	func() {
		defer func() {
			if p := recover(); p != nil {
				b.Errorf("%v", p)
			}
		}()
		synctest.Test(c.r.t, func(*testing.T) {
			defer func() {
				if p := recover(); p != nil {
					b.Errorf("panic: %v", p)
				}
			}()
			f(b)
		})
	}()
	if len(b.errs) > 0 {
		c.Fatalf("%s", strings.Join(b.errs, "; "))
	}
}
