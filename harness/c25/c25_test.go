// Package c25 checks property C25: output handlers under concurrency and faults.
package c25

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log/syslog"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"flychain/log"
	"flychain/rlp/zzverif/lg"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

// plan says what each goroutine logs.
type plan struct {
	g     [][]item
	total int
}

type item struct {
	pad  int  // payload size
	fail bool // the writer fails on this record
	late bool // ... after having written it
	lazy bool
	lvl  int
}

func draw(c *vh.C, maxG, maxM int, faults bool) plan {
	var p plan
	for i := rapid.IntRange(1, maxG).Draw(c.T, "goroutines"); i > 0; i-- {
		var its []item
		for j := rapid.IntRange(1, maxM).Draw(c.T, "records"); j > 0; j-- {
			it := item{pad: rapid.SampledFrom([]int{0, 1, 7, 100, 5000}).Draw(c.T, "pad"), lvl: rapid.IntRange(0, 4).Draw(c.T, "lvl")}
			if faults {
				it.fail = rapid.IntRange(0, 4).Draw(c.T, "fail") == 0
			}
			it.late = it.fail && rapid.Bool().Draw(c.T, "late")
			it.lazy = rapid.IntRange(0, 4).Draw(c.T, "lazy") == 0
			its = append(its, it)
			p.total++
		}
		p.g = append(p.g, its)
	}
	return p
}

// record builds the i-th record of goroutine g.
func record(g, i int, it item) *log.Record {
	r := &log.Record{
		Time: time.Unix(int64(i), 0).UTC(), Lvl: log.Lvl(it.lvl), Msg: fmt.Sprintf("rec %d %d", g, i),
		KeyNames: log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"},
		Ctx:      []any{"pad", strings.Repeat("x", it.pad)},
	}
	if it.lazy {
		r.Ctx = append(r.Ctx, "lazy", log.Lazy{Fn: func() string { return "evaluated" }})
	}
	return r
}

// formats under which lines can be told apart.
var formats = map[string]func() log.Format{
	"logfmt":   func() log.Format { return log.LogfmtFormat() },
	"json":     func() log.Format { return log.JSONFormat() },
	"ordered":  func() log.Format { return log.JSONFormatOrderedEx(false, true) },
	"terminal": func() log.Format { return log.TerminalFormat(false) },
	"color":    func() log.Format { return log.TerminalFormat(true) },
}

var formatNames = []string{"logfmt", "json", "ordered", "terminal", "color"}

var (
	msgRE = regexp.MustCompile(`rec (\d+) (\d+)`)
	padRE = regexp.MustCompile(`x*`)
)

// checkStream checks that the output is exactly the records of the plan,
// whole, once and in order per goroutine.
func checkStream(out []byte, p plan, sent func(g, i int) bool) error {
	if len(out) > 0 && out[len(out)-1] != '\n' {
		return fmt.Errorf("the output ends in a torn line: %.100q", out[bytes.LastIndexByte(out, '\n')+1:])
	}
	next := make([]int, len(p.g))
	for _, line := range strings.SplitAfter(string(out), "\n") {
		if line == "" {
			continue
		}
		m := msgRE.FindAllStringSubmatch(line, -1)
		if len(m) != 1 {
			return fmt.Errorf("line holds %d records: %.200q", len(m), line)
		}
		var g, i int
		fmt.Sscan(m[0][1], &g)
		fmt.Sscan(m[0][2], &i)
		if g >= len(p.g) || i >= len(p.g[g]) {
			return fmt.Errorf("unknown record in %.200q", line)
		}
		for next[g] < i && !sent(g, next[g]) {
			next[g]++
		}
		if i != next[g] {
			return fmt.Errorf("record %d of goroutine %d where %d was due", i, g, next[g])
		}
		if !sent(g, i) {
			return fmt.Errorf("record %d of goroutine %d was written although its write failed", i, g)
		}
		next[g]++
		it := p.g[g][i]
		longest := 0
		for _, x := range padRE.FindAllString(line, -1) {
			longest = max(longest, len(x))
		}
		if it.pad > 1 && longest != it.pad {
			return fmt.Errorf("payload of %d bytes has %d: torn record", it.pad, longest)
		}
		if it.lazy != strings.Contains(line, "evaluated") {
			return fmt.Errorf("lazy value (%v) in %.200q", it.lazy, line)
		}
	}
	for g := range next {
		for next[g] < len(p.g[g]) && !sent(g, next[g]) {
			next[g]++
		}
		if next[g] != len(p.g[g]) {
			return fmt.Errorf("record %d of goroutine %d is missing", next[g], g)
		}
	}
	return nil
}

// writer is slow, notices concurrent use, and fails on chosen records.
type writer struct {
	active  atomic.Int32
	overlap atomic.Bool
	buf     []byte // unguarded on purpose: the race detector watches
	failOn  func(line []byte) (err error, late bool)
	yield   int
}

func (w *writer) Write(b []byte) (int, error) {
	if w.active.Add(1) != 1 {
		w.overlap.Store(true)
	}
	defer w.active.Add(-1)
	var ferr error
	if w.failOn != nil {
		var late bool
		if ferr, late = w.failOn(b); ferr != nil && !late {
			return 0, ferr
		}
	}
	h := len(b) / 2
	w.buf = append(w.buf, b[:h]...)
	for i := 0; i < w.yield; i++ {
		runtime.Gosched()
	}
	w.buf = append(w.buf, b[h:]...)
	return len(b), ferr
}

type failure struct{ g, i int }

func (f failure) Error() string { return fmt.Sprintf("write %d %d failed", f.g, f.i) }

// run logs the plan from its goroutines and returns the errors.
func run(p plan, f func(g, i int, it item) error) (errs [][]error, panics string) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	errs = make([][]error, len(p.g))
	start := make(chan struct{})
	for g := range p.g {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					mu.Lock()
					panics = fmt.Sprint(x)
					mu.Unlock()
				}
			}()
			<-start
			for i, it := range p.g[g] {
				errs[g] = append(errs[g], f(g, i, it))
			}
		}()
	}
	close(start)
	wg.Wait()
	return
}

func TestStream(t *testing.T) {
	vh.Run(t, vh.Opt{N: 700, Rule: "1-5 goroutines log 1-8 records each (0-5000 byte payloads, lazy values) through one stream handler onto a writer that yields half-way and fails on chosen records; non-trivial: at least two goroutines"}, func(c *vh.C) {
		p := draw(c, 5, 8, rapid.Bool().Draw(c.T, "faults"))
		name := rapid.SampledFrom(formatNames).Draw(c.T, "format")
		yield := rapid.IntRange(0, 3).Draw(c.T, "yield")
		c.Note(len(p.g) > 1, "%s yield=%d %v", name, yield, p.g)
		c.Class("%s", name)
		w := &writer{yield: yield}
		w.failOn = func(b []byte) (error, bool) {
			m := msgRE.FindSubmatch(b)
			if m == nil {
				return errors.New("no record in the chunk"), false
			}
			var g, i int
			fmt.Sscan(string(m[1]), &g)
			fmt.Sscan(string(m[2]), &i)
			if p.g[g][i].fail {
				return failure{g, i}, p.g[g][i].late
			}
			return nil, false
		}
		h := log.StreamHandler(w, formats[name]())
		errs, pan := run(p, func(g, i int, it item) error { return h.Log(record(g, i, it)) })
		if pan != "" {
			c.Fatalf("panic: %s", pan)
		}
		if w.overlap.Load() {
			c.Fatalf("two writes at the same time")
		}
		for g := range p.g {
			for i, it := range p.g[g] {
				if it.fail && errs[g][i] != error(failure{g, i}) || !it.fail && errs[g][i] != nil {
					c.Fatalf("record %d of goroutine %d (fail %v) returned %v", i, g, it.fail, errs[g][i])
				}
			}
		}
		if err := checkStream(w.buf, p, func(g, i int) bool { return !p.g[g][i].fail || p.g[g][i].late }); err != nil {
			c.Fatalf("%v", err)
		}
	})
}

// TestLazyLogs: a lazy value may log through the very handler it is written
// by; its record comes first.
func TestLazyLogs(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1000, Rule: "1-3 goroutines log records whose lazy values log through the same stream handler, up to three deep, possibly with a failing writer; non-trivial: all"}, func(c *vh.C) {
		n := rapid.IntRange(1, 3).Draw(c.T, "goroutines")
		per := rapid.IntRange(1, 4).Draw(c.T, "records")
		depth := rapid.IntRange(1, 3).Draw(c.T, "depth")
		fails := rapid.IntRange(0, 3).Draw(c.T, "fails") == 0
		c.Note(true, "%d x %d, depth %d, failing writer %v", n, per, depth, fails)
		w := &writer{yield: 1}
		boom := errors.New("boom")
		if fails {
			w.failOn = func([]byte) (error, bool) { return boom, true }
		}
		h := log.StreamHandler(w, log.LogfmtFormat())
		var logIt func(g, i, d int) error
		logIt = func(g, i, d int) error {
			r := record(g, i*(depth+1)+(depth-d), item{})
			if d > 0 {
				r.Ctx = append(r.Ctx, "deeper", log.Lazy{Fn: func() string {
					logIt(g, i, d-1)
					return "done"
				}})
			}
			return h.Log(r)
		}
		var p plan
		for g := 0; g < n; g++ {
			p.g = append(p.g, make([]item, per))
		}
		errs, pan := run(p, func(g, i int, it item) error { return logIt(g, i, depth) })
		if pan != "" || w.overlap.Load() {
			c.Fatalf("panic %q, two writes at the same time: %v", pan, w.overlap.Load())
		}
		next := make([]int, n)
		for _, line := range strings.SplitAfter(string(w.buf), "\n") {
			if line == "" {
				continue
			}
			var g, i int
			m := msgRE.FindAllStringSubmatch(line, -1)
			if len(m) != 1 || !strings.HasSuffix(line, "\n") {
				c.Fatalf("not one record: %.200q", line)
			}
			fmt.Sscan(m[0][1], &g)
			fmt.Sscan(m[0][2], &i)
			// the innermost record of each group is written first
			if want := next[g]/(depth+1)*(depth+1) + depth - next[g]%(depth+1); i != want {
				c.Fatalf("record %d of goroutine %d where %d was due", i, g, want)
			}
			if inner := i%(depth+1) == depth; inner == strings.Contains(line, "deeper=done") {
				c.Fatalf("lazy value of record %d: %.200q", i, line)
			}
			next[g]++
		}
		for g := range next {
			if next[g] != per*(depth+1) {
				c.Fatalf("%d records of goroutine %d, want %d", next[g], g, per*(depth+1))
			}
			for _, err := range errs[g] {
				if fails && err != boom || !fails && err != nil {
					c.Fatalf("Log returned %v", err)
				}
			}
		}
	})
}

func TestFormatsInParallel(t *testing.T) {
	vh.Run(t, vh.Opt{N: 300, Rule: "each goroutine logs through a stream handler of its own with its own format while origins are switched on and off (the formats share alignment state); non-trivial: at least two goroutines"}, func(c *vh.C) {
		p := draw(c, 5, 8, false)
		names := make([]string, len(p.g))
		ws := make([]*writer, len(p.g))
		hs := make([]log.Handler, len(p.g))
		for i := range names {
			names[i] = rapid.SampledFrom(formatNames).Draw(c.T, "format")
			ws[i] = &writer{yield: 1}
			hs[i] = log.StreamHandler(ws[i], formats[names[i]]())
		}
		c.Note(len(p.g) > 1, "%v %v", names, p.g)
		_, pan := run(p, func(g, i int, it item) error {
			log.PrintOrigins(i%2 == 0)
			r := record(g, i, it)
			r.Ctx = append(r.Ctx, fmt.Sprintf("key%d", i%3), i*1000000)
			return hs[g].Log(r)
		})
		log.PrintOrigins(false)
		if pan != "" {
			c.Fatalf("panic: %s", pan)
		}
		for g := range p.g {
			only := plan{g: make([][]item, len(p.g))}
			only.g[g] = p.g[g]
			if err := checkStream(ws[g].buf, only, func(int, int) bool { return true }); err != nil {
				c.Fatalf("%s: %v", names[g], err)
			}
		}
	})
}

func TestSync(t *testing.T) {
	vh.Run(t, vh.Opt{N: 500, Rule: "1-6 goroutines log through one synchronised handler whose inner handler yields, fails or panics on chosen records and keeps unguarded state; non-trivial: at least two goroutines"}, func(c *vh.C) {
		p := draw(c, 6, 6, true)
		yield := rapid.IntRange(0, 3).Draw(c.T, "yield")
		c.Note(len(p.g) > 1, "yield=%d %v", yield, p.g)
		var active atomic.Int32
		overlap := false
		var seen []string
		h := log.SyncHandler(log.FuncHandler(func(r *log.Record) error {
			if active.Add(1) != 1 {
				overlap = true
			}
			defer active.Add(-1)
			var g, i int
			fmt.Sscanf(r.Msg, "rec %d %d", &g, &i)
			for k := 0; k < yield; k++ {
				runtime.Gosched()
			}
			seen = append(seen, r.Msg)
			if p.g[g][i].fail {
				if p.g[g][i].late {
					panic(failure{g, i})
				}
				return failure{g, i}
			}
			return nil
		}))
		errs, pan := run(p, func(g, i int, it item) (err error) {
			defer func() {
				if x := recover(); x != nil {
					err = x.(failure)
				}
			}()
			return h.Log(record(g, i, it))
		})
		if pan != "" || overlap {
			c.Fatalf("overlap %v, panic %q", overlap, pan)
		}
		out := strings.Join(seen, "\n") + "\n"
		q := plan{}
		for g := range p.g {
			var its []item
			for i, it := range p.g[g] {
				if it.fail && errs[g][i] != error(failure{g, i}) || !it.fail && errs[g][i] != nil {
					c.Fatalf("record %d of goroutine %d (fail %v) returned %v", i, g, it.fail, errs[g][i])
				}
				its = append(its, item{})
			}
			q.g = append(q.g, its)
		}
		if err := checkStream([]byte(out), q, func(int, int) bool { return true }); err != nil {
			c.Fatalf("%v", err)
		}
	})
}

func TestSwap(t *testing.T) {
	vh.Run(t, vh.Opt{N: 500, Rule: "goroutines log through loggers that inherit their handler from a common parent while it is swapped 1-10 times between 2-3 sinks; non-trivial: at least two goroutines"}, func(c *vh.C) {
		p := draw(c, 4, 10, false)
		swaps := rapid.IntRange(1, 10).Draw(c.T, "swaps")
		ns := rapid.IntRange(2, 3).Draw(c.T, "sinks")
		depth := rapid.IntRange(0, 2).Draw(c.T, "depth")
		c.Note(len(p.g) > 1, "swaps=%d sinks=%d depth=%d %v", swaps, ns, depth, p.g)
		sinks := make([]*[]string, ns)
		hs := make([]log.Handler, ns)
		for i := range sinks {
			var s []string
			sinks[i] = &s
			hs[i] = log.SyncHandler(log.FuncHandler(func(r *log.Record) error {
				s = append(s, r.Msg)
				return nil
			}))
		}
		parent := log.New("p", 1)
		parent.SetHandler(hs[0])
		done := make(chan int)
		go func() {
			last := 0
			for i := 0; i < swaps; i++ {
				runtime.Gosched()
				last = (i + 1) % ns
				parent.SetHandler(hs[last])
			}
			done <- last
		}()
		loggers := make([]log.Logger, len(p.g))
		for g := range loggers {
			loggers[g] = parent
			for d := 0; d < depth; d++ {
				loggers[g] = loggers[g].New("d", d)
			}
		}
		_, pan := run(p, func(g, i int, it item) error {
			loggers[g].Info(fmt.Sprintf("rec %d %d", g, i), "k", i)
			return nil
		})
		last := <-done
		if pan != "" {
			c.Fatalf("panic: %s", pan)
		}
		count := map[string]int{}
		for _, s := range sinks {
			prev := map[int]int{}
			for _, m := range *s {
				count[m]++
				var g, i int
				fmt.Sscanf(m, "rec %d %d", &g, &i)
				if q, ok := prev[g]; ok && i <= q {
					c.Fatalf("sink got record %d of goroutine %d after %d", i, g, q)
				}
				prev[g] = i
			}
		}
		for g := range p.g {
			for i := range p.g[g] {
				if n := count[fmt.Sprintf("rec %d %d", g, i)]; n != 1 {
					c.Fatalf("record %d of goroutine %d arrived %d times", i, g, n)
				}
			}
		}
		for g := range loggers {
			loggers[g].Warn("after", "g", g)
			if s := *sinks[last]; len(s) == 0 || s[len(s)-1] != "after" {
				c.Fatalf("a logger still uses a handler that was replaced")
			}
			*sinks[last] = nil
		}
	})
}

func TestBuffered(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1500, Rule: "1-4 goroutines log 1-8 records each into a buffered (0-6) or channel handler whose consumer is held back and then released record by record or at once; non-trivial: more records than the buffer holds"}, func(c *vh.C) {
		size := rapid.IntRange(0, 6).Draw(c.T, "size")
		p := draw(c, 4, 8, false)
		useChan := rapid.Bool().Draw(c.T, "channel")
		steps := rapid.IntRange(0, 3).Draw(c.T, "steps")
		fails := rapid.Bool().Draw(c.T, "inner fails")
		c.Note(p.total > size, "size=%d channel=%v steps=%d %v", size, useChan, steps, p.g)
		c.Class("channel %v", useChan)
		c.Bubble(func(b *vh.B) {
			gate := make(chan struct{})
			var got []*log.Record
			inner := log.FuncHandler(func(r *log.Record) error {
				if r.Msg == "end" {
					runtime.Goexit()
				}
				<-gate
				got = append(got, r)
				if fails {
					return errors.New("ignored")
				}
				return nil
			})
			var h log.Handler
			hold := 1 // records the consumer holds in its hands
			if useChan {
				ch := make(chan *log.Record, size)
				h = log.ChannelHandler(ch)
				go func() {
					for r := range ch {
						inner.Log(r)
					}
				}()
			} else {
				h = log.BufferedHandler(size, inner)
			}
			var mu = make(chan struct{}, 1)
			var sent [4][]*log.Record
			var completed atomic.Int32
			left := make(chan struct{}, 4)
			for g := range p.g {
				b.Go(func() {
					defer func() { left <- struct{}{} }()
					for i, it := range p.g[g] {
						it.lazy = false
						r := record(g, i, it)
						mu <- struct{}{}
						sent[g] = append(sent[g], r)
						<-mu
						if err := h.Log(r); err != nil {
							b.Errorf("Log returned %v", err)
						}
						completed.Add(1)
					}
				})
			}
			synctest.Wait()
			if n := int(completed.Load()); n > size+hold || n < min(p.total, size) {
				b.Errorf("%d of %d calls returned with the consumer held and a buffer of %d", n, p.total, size)
			}
			for i := 0; i < steps && i < p.total; i++ {
				gate <- struct{}{}
				synctest.Wait()
				if len(got) != i+1 {
					b.Errorf("%d records handled after %d steps", len(got), i+1)
				}
			}
			close(gate)
			for range p.g {
				<-left
			}
			synctest.Wait()
			h.Log(&log.Record{Msg: "end"})
			synctest.Wait()
			if len(got) != p.total {
				b.Errorf("%d of %d records delivered", len(got), p.total)
			}
			next := make([]int, len(p.g))
			for _, r := range got {
				var g, i int
				fmt.Sscanf(r.Msg, "rec %d %d", &g, &i)
				if i != next[g] {
					b.Errorf("record %d of goroutine %d where %d was due", i, g, next[g])
				} else if sent[g][i].Msg != r.Msg || len(r.Ctx) != 2 {
					b.Errorf("record changed on the way")
				}
				next[g]++
			}
		})
	})
}

func TestFile(t *testing.T) {
	dir := t.TempDir()
	n := 0
	vh.Run(t, vh.Opt{N: 250, Rule: "1-3 handlers opened (and closed) on one file with or without earlier content, logging from goroutines, in 1-3 rounds; paths that cannot be opened; a full device; all non-trivial"}, func(c *vh.C) {
		n++
		path := filepath.Join(dir, fmt.Sprint(n, ".log"))
		switch rapid.IntRange(0, 7).Draw(c.T, "kind") {
		case 0: // cannot be opened
			bad := rapid.SampledFrom([]string{filepath.Join(dir, "missing", "x.log"), dir, "", path + "/\x00"}).Draw(c.T, "bad")
			c.Note(true, "bad path %d", len(bad))
			c.Class("bad path")
			h, err := log.FileHandler(bad, log.LogfmtFormat())
			if err == nil || h != nil {
				c.Fatalf("FileHandler(%q) = %v, %v", bad, h, err)
			}
			if vh.Caught(func() { log.Must.FileHandler(bad, log.LogfmtFormat()) }) == nil {
				c.Fatalf("Must.FileHandler(%q) returned", bad)
			}
			return
		case 1: // every write fails
			if _, err := os.Stat("/dev/full"); err == nil {
				c.Note(true, "full device")
				c.Class("full device")
				h, err := log.FileHandler("/dev/full", log.LogfmtFormat())
				if err != nil {
					c.Fatalf("%v", err)
				}
				defer closeHandler(h)
				for i := 0; i < 2; i++ {
					if err := h.Log(record(0, i, item{})); err == nil {
						c.Fatalf("a failed write was not reported")
					}
				}
				return
			}
		}
		initial := ""
		if rapid.Bool().Draw(c.T, "exists") {
			initial = rapid.SampledFrom([]string{"", "old line\n", "torn"}).Draw(c.T, "initial")
			if err := os.WriteFile(path, []byte(initial), 0600); err != nil {
				c.Fatalf("%v", err)
			}
		}
		defer os.Remove(path)
		name := rapid.SampledFrom(formatNames).Draw(c.T, "format")
		content := []byte(initial)
		desc := ""
		for round := rapid.IntRange(1, 3).Draw(c.T, "rounds"); round > 0; round-- {
			p := draw(c, 4, 5, false)
			nh := rapid.IntRange(1, 3).Draw(c.T, "handlers")
			var hs []log.Handler
			for i := 0; i < nh; i++ {
				if i == 0 && rapid.Bool().Draw(c.T, "must") {
					hs = append(hs, log.Must.FileHandler(path, formats[name]()))
					continue
				}
				h, err := log.FileHandler(path, formats[name]())
				if err != nil {
					c.Fatalf("%v", err)
				}
				hs = append(hs, h)
			}
			desc += fmt.Sprintf(" %d handlers %v", nh, p.g)
			errs, pan := run(p, func(g, i int, it item) error { return hs[g%nh].Log(record(g, i, it)) })
			if pan != "" {
				c.Fatalf("panic: %s", pan)
			}
			for _, es := range errs {
				for _, e := range es {
					if e != nil {
						c.Fatalf("Log: %v", e)
					}
				}
			}
			now, err := os.ReadFile(path)
			if err != nil {
				c.Fatalf("%v", err)
			}
			if !bytes.HasPrefix(now, content) {
				c.Fatalf("earlier content was lost")
			}
			if err := checkStream(now[len(content):], p, func(int, int) bool { return true }); err != nil {
				c.Fatalf("%v", err)
			}
			content = now
			for _, h := range hs {
				closeHandler(h)
			}
		}
		c.Note(true, "%s initial=%q%s", name, initial, desc)
	})
}

func closeHandler(h log.Handler) bool {
	if cl, ok := h.(io.Closer); ok {
		cl.Close()
		return true
	}
	return false
}

func TestNet(t *testing.T) {
	dir := t.TempDir()
	n := 0
	vh.Run(t, vh.Opt{N: 120, Max: 1500, Rule: "1-4 goroutines log over a TCP or Unix connection to a listener of the harness; addresses nobody listens on; logging after the peer closed the connection; all non-trivial"}, func(c *vh.C) {
		n++
		network, addr := "tcp", "127.0.0.1:0"
		if rapid.Bool().Draw(c.T, "unix") {
			network, addr = "unix", filepath.Join(dir, fmt.Sprint("s", n))
		}
		ln, err := net.Listen(network, addr)
		if err != nil {
			t.Skip(err)
		}
		addr = ln.Addr().String()
		must := rapid.Bool().Draw(c.T, "must")
		if rapid.IntRange(0, 4).Draw(c.T, "refused") == 0 {
			ln.Close()
			c.Note(true, "%s refused", network)
			c.Class("refused")
			if h, err := log.NetHandler(network, addr, log.LogfmtFormat()); err == nil || h != nil {
				c.Fatalf("NetHandler to nobody: %v, %v", h, err)
			}
			if vh.Caught(func() { log.Must.NetHandler(network, addr, log.LogfmtFormat()) }) == nil {
				c.Fatalf("Must.NetHandler to nobody returned")
			}
			return
		}
		defer ln.Close()
		p := draw(c, 4, 6, false)
		name := rapid.SampledFrom(formatNames).Draw(c.T, "format")
		c.Note(true, "%s %s %v", network, name, p.g)
		c.Class("%s", network)
		type result struct {
			b   []byte
			err error
		}
		res := make(chan result, 1)
		go func() {
			conn, err := ln.Accept()
			if err != nil {
				res <- result{nil, err}
				return
			}
			var b []byte
			buf := make([]byte, 1<<16)
			for err == nil && bytes.Count(b, []byte("\n")) < p.total {
				var k int
				conn.SetReadDeadline(time.Now().Add(20 * time.Second))
				k, err = conn.Read(buf)
				b = append(b, buf[:k]...)
			}
			// nothing more may follow
			conn.SetReadDeadline(time.Now().Add(time.Millisecond))
			k, _ := conn.Read(buf)
			b = append(b, buf[:k]...)
			if tc, ok := conn.(*net.TCPConn); ok {
				tc.SetLinger(0)
			}
			conn.Close()
			res <- result{b, err}
		}()
		var h log.Handler
		if must {
			h = log.Must.NetHandler(network, addr, formats[name]())
		} else if h, err = log.NetHandler(network, addr, formats[name]()); err != nil {
			c.Fatalf("%v", err)
		}
		errs, pan := run(p, func(g, i int, it item) error { return h.Log(record(g, i, it)) })
		if pan != "" {
			c.Fatalf("panic: %s", pan)
		}
		for _, es := range errs {
			for _, e := range es {
				if e != nil {
					c.Fatalf("Log: %v", e)
				}
			}
		}
		r := <-res
		if r.err != nil {
			c.Fatalf("reading: %v, got %d of %d records", r.err, bytes.Count(r.b, []byte("\n")), p.total)
		}
		if err := checkStream(r.b, p, func(int, int) bool { return true }); err != nil {
			c.Fatalf("%v", err)
		}
		// the peer has gone: soon writes fail, and that is reported
		reported := false
		for i := 0; i < 400 && !reported; i++ {
			reported = h.Log(record(0, 0, item{})) != nil
			if i > 2 {
				time.Sleep(10 * time.Millisecond)
			}
		}
		if !reported {
			c.Fatalf("writes on a connection the peer has closed were never reported as failed")
		}
		closeHandler(h)
	})
}

var sysRE = regexp.MustCompile(`^<(\d+)>[^ ]+ [^ ]+ tag\[\d+\]: (.*)$`)

func TestSyslog(t *testing.T) {
	dir := t.TempDir()
	n := 0
	severity := []int{2, 3, 4, 6, 7} // crit, err, warning, info, debug
	vh.Run(t, vh.Opt{N: 60, Max: 600, Rule: "1-3 goroutines log at every level (trace has no severity there and is not sent) to a syslog listener of the harness (TCP); a refused connection; all non-trivial"}, func(c *vh.C) {
		n++
		_ = dir
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Skip(err)
		}
		addr := ln.Addr().String()
		if rapid.IntRange(0, 5).Draw(c.T, "refused") == 0 {
			ln.Close()
			c.Note(true, "refused")
			if h, err := log.SyslogNetHandler("tcp", addr, syslog.LOG_USER|syslog.LOG_INFO, "tag", log.LogfmtFormat()); err == nil || h != nil {
				c.Fatalf("SyslogNetHandler to nobody: %v, %v", h, err)
			}
			if vh.Caught(func() {
				log.Must.SyslogNetHandler("tcp", addr, syslog.LOG_USER|syslog.LOG_INFO, "tag", log.LogfmtFormat())
			}) == nil {
				c.Fatalf("Must.SyslogNetHandler to nobody returned")
			}
			if _, err := os.Stat("/dev/log"); err != nil { // no daemon here, usually
				h, err := log.SyslogHandler(syslog.LOG_USER|syslog.LOG_INFO, "tag", log.LogfmtFormat())
				if (h == nil) != (err != nil) {
					c.Fatalf("SyslogHandler: %v, %v", h, err)
				}
				if err != nil && vh.Caught(func() { log.Must.SyslogHandler(syslog.LOG_USER|syslog.LOG_INFO, "tag", log.LogfmtFormat()) }) == nil {
					c.Fatalf("Must.SyslogHandler returned without a daemon")
				}
			}
			return
		}
		defer ln.Close()
		p := draw(c, 3, 5, false)
		c.Note(true, "%v", p.g)
		conns := make(chan net.Conn, 1)
		go func() {
			conn, err := ln.Accept()
			if err != nil {
				close(conns)
				return
			}
			conns <- conn
		}()
		var h log.Handler
		if rapid.Bool().Draw(c.T, "must") {
			h = log.Must.SyslogNetHandler("tcp", addr, syslog.LOG_USER|syslog.LOG_INFO, "tag", log.LogfmtFormat())
		} else if h, err = log.SyslogNetHandler("tcp", addr, syslog.LOG_USER|syslog.LOG_INFO, "tag", log.LogfmtFormat()); err != nil {
			c.Fatalf("%v", err)
		}
		conn := <-conns
		defer conn.Close()
		out := make(chan []byte, 1)
		go func() {
			var got []byte
			buf := make([]byte, 1<<16)
			for bytes.Count(got, []byte("\n")) < p.total {
				conn.SetReadDeadline(time.Now().Add(20 * time.Second))
				k, err := conn.Read(buf)
				got = append(got, buf[:k]...)
				if err != nil {
					break
				}
			}
			out <- got
		}()
		traces := rapid.IntRange(0, 1).Draw(c.T, "traces") == 0
		_, pan := run(p, func(g, i int, it item) error {
			if traces {
				tr := record(g, i, it)
				tr.Lvl, tr.Msg = log.LvlTrace, "not sent"
				if err := h.Log(tr); err != nil {
					return err
				}
			}
			return h.Log(record(g, i, it))
		})
		if pan != "" {
			c.Fatalf("panic: %s", pan)
		}
		got := <-out
		if bytes.Contains(got, []byte("not sent")) {
			c.Fatalf("a trace record was sent: %.300q", got)
		}
		var lines []string
		for _, l := range strings.Split(strings.TrimSuffix(string(got), "\n"), "\n") {
			m := sysRE.FindStringSubmatch(l)
			if m == nil {
				c.Fatalf("not a syslog message: %.200q", l)
			}
			kv, err := lg.ParsePairs(m[2])
			if err != nil || len(kv) < 4 {
				c.Fatalf("%.200q: %v", m[2], err)
			}
			var g, i, pri int
			fmt.Sscanf(kv[2].V, "rec %d %d", &g, &i)
			fmt.Sscan(m[1], &pri)
			if g < len(p.g) && i < len(p.g[g]) && pri != 8+severity[p.g[g][i].lvl] {
				c.Fatalf("level %d was sent with priority %d", p.g[g][i].lvl, pri)
			}
			lines = append(lines, m[2])
		}
		if err := checkStream([]byte(strings.Join(lines, "\n")+"\n"), p, func(int, int) bool { return true }); err != nil {
			c.Fatalf("%v", err)
		}
	})
}
