// Package c08 checks property C08: clocks and timers.
package c08

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"flychain/common/mclock"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

// tm is the model of one timer.
type tm struct {
	id      int
	at      mclock.AbsTime
	pending bool
	ct      mclock.ChanTimer // nil for AfterFunc
	t       mclock.Timer
	fires   int // calls seen
	expect  int
	full    bool // channel holds an unread value
	lastDue mclock.AbsTime
}

type fire struct {
	id  int
	now mclock.AbsTime
}

type world struct {
	c    *vh.C
	s    *mclock.Simulated
	now  mclock.AbsTime
	tms  []*tm
	log  []fire
	ops  []string
	nest map[int]func() // what callback id does when it runs
}

func (w *world) fail(format string, args ...any) {
	w.c.Fatalf("%s\nafter: %s", fmt.Sprintf(format, args...), strings.Join(w.ops, "; "))
}

func (w *world) active() int {
	n := 0
	for _, t := range w.tms {
		if t.pending {
			n++
		}
	}
	return n
}

func (w *world) addFunc(d time.Duration) *tm {
	m := &tm{id: len(w.tms), at: w.now.Add(d), pending: true}
	w.tms = append(w.tms, m)
	m.t = w.s.AfterFunc(d, func() {
		m.fires++
		w.log = append(w.log, fire{m.id, w.s.Now()})
		if f := w.nest[m.id]; f != nil {
			f()
		}
	})
	return m
}

func dur(t *rapid.T) time.Duration {
	switch rapid.IntRange(0, 5).Draw(t, "dk") {
	case 0:
		return time.Duration(rapid.IntRange(0, 3).Draw(t, "d"))
	case 1:
		return time.Duration(vh.U64(t, "d") >> 3)
	case 2:
		return time.Duration(rapid.IntRange(0, 20).Draw(t, "d")) * time.Second
	default:
		return time.Duration(rapid.IntRange(0, 20).Draw(t, "d"))
	}
}

func (w *world) stop(m *tm) {
	want := m.pending
	m.pending = false
	if got := m.t.Stop(); got != want {
		w.fail("Stop of timer %d (due %d, now %d) = %v, want %v", m.id, m.at, w.now, got, want)
	}
}

func TestSimulated(t *testing.T) {
	vh.Run(t, vh.Opt{N: 20000, Rule: "histories of up to 40 operations (AfterFunc, NewTimer, After, Stop, Reset, Run, channel reads, callbacks that schedule and stop) against a sorted-list model; non-trivial: at least one stop or reset of a pending timer and two firings"}, func(c *vh.C) {
		w := &world{c: c, s: new(mclock.Simulated), nest: map[int]func(){}}
		fires, cancels := 0, 0
		nops := rapid.IntRange(1, 40).Draw(c.T, "nops")
		for i := 0; i < nops; i++ {
			op := rapid.SampledFrom([]string{"func", "func", "timer", "after", "stop", "stop", "reset", "reset", "run", "run", "read", "nest"}).Draw(c.T, "op")
			if len(w.tms) == 0 && (op == "stop" || op == "reset" || op == "read") {
				op = "func"
			}
			switch op {
			case "func":
				d := dur(c.T)
				if rapid.IntRange(0, 9).Draw(c.T, "neg") == 0 {
					d = -d
				}
				w.ops = append(w.ops, fmt.Sprintf("AfterFunc#%d(%d)", len(w.tms), d))
				w.addFunc(d)
			case "nest": // a callback that schedules another one, or stops one
				d, d2 := dur(c.T), dur(c.T)+1
				victim := -1
				if rapid.Bool().Draw(c.T, "stops") && len(w.tms) > 0 {
					if victim = rapid.IntRange(0, len(w.tms)-1).Draw(c.T, "victim"); w.tms[victim].t == nil {
						victim = -1
					}
				}
				w.ops = append(w.ops, fmt.Sprintf("AfterFunc#%d(%d){stop #%d or schedule %d}", len(w.tms), d, victim, d2))
				m := w.addFunc(d)
				w.nest[m.id] = func() {
					if victim >= 0 {
						w.stop(w.tms[victim])
					} else {
						w.addFunc(d2)
					}
				}
			case "timer", "after":
				d := dur(c.T)
				m := &tm{id: len(w.tms), at: w.now.Add(d), pending: true}
				w.tms = append(w.tms, m)
				w.ops = append(w.ops, fmt.Sprintf("NewTimer#%d(%d)", m.id, d))
				if op == "timer" {
					m.ct = w.s.NewTimer(d)
					m.t = m.ct
				} else {
					m.ct = afterTimer{ch: w.s.After(d)}
				}
			case "stop":
				m := w.tms[rapid.IntRange(0, len(w.tms)-1).Draw(c.T, "i")]
				if m.t == nil {
					continue
				}
				w.ops = append(w.ops, fmt.Sprintf("Stop#%d", m.id))
				if m.pending {
					cancels++
				}
				w.stop(m)
			case "reset":
				m := w.tms[rapid.IntRange(0, len(w.tms)-1).Draw(c.T, "i")]
				if m.t == nil || m.ct == nil {
					continue
				}
				d := dur(c.T)
				w.drain(m) // documented precondition: drained channel
				w.ops = append(w.ops, fmt.Sprintf("Reset#%d(%d)", m.id, d))
				if m.pending {
					cancels++
				}
				m.at, m.pending = w.now.Add(d), true
				m.ct.Reset(d)
			case "read":
				w.drain(w.tms[rapid.IntRange(0, len(w.tms)-1).Draw(c.T, "i")])
			case "run":
				d := dur(c.T)
				for _, m := range w.tms { // sometimes land exactly on a due time
					if m.pending && m.at >= w.now && rapid.IntRange(0, 3).Draw(c.T, "exact") == 0 {
						d = m.at.Sub(w.now)
						break
					}
				}
				w.ops = append(w.ops, fmt.Sprintf("Run(%d)", d))
				fires += w.run(d)
			}
			if got := w.s.Now(); got != w.now {
				w.fail("Now() = %d, want %d", got, w.now)
			}
			if got := w.s.ActiveTimers(); got != w.active() {
				w.fail("ActiveTimers() = %d, want %d", got, w.active())
			}
		}
		for _, m := range w.tms {
			w.drain(m)
		}
		c.Note(fires >= 2 && cancels >= 1, "%s", strings.Join(w.ops, "; "))
	})
}

type afterTimer struct{ ch <-chan mclock.AbsTime }

func (a afterTimer) C() <-chan mclock.AbsTime { return a.ch }
func (a afterTimer) Stop() bool               { panic("no") }
func (a afterTimer) Reset(time.Duration)      { panic("no") }

// drain reads the channel of m: it must hold exactly what the model says.
func (w *world) drain(m *tm) {
	if m.ct == nil {
		return
	}
	select {
	case v := <-m.ct.C():
		if !m.full {
			w.fail("timer %d's channel delivered %d, nothing was due", m.id, v)
		}
		if v != m.lastDue {
			w.fail("timer %d's channel carries %d, want its due time %d", m.id, v, m.lastDue)
		}
	default:
		if m.full {
			w.fail("timer %d's channel is empty, want %d", m.id, m.lastDue)
		}
	}
	m.full = false
}

func (w *world) run(d time.Duration) int {
	end := w.now.Add(d)
	var due []*tm
	for _, m := range w.tms {
		if m.pending && m.at <= end {
			due = append(due, m)
		}
	}
	sort.SliceStable(due, func(i, j int) bool { return due[i].at < due[j].at })
	for _, m := range due { // all are taken off the schedule before any callback runs
		m.pending = false
		if m.ct != nil {
			m.full, m.lastDue = true, m.at
		} else {
			m.expect++
		}
	}
	w.now = end
	start := len(w.log)
	w.s.Run(d)
	got := w.log[start:]
	var want []*tm
	for _, m := range due {
		if m.ct == nil {
			want = append(want, m)
		}
	}
	if len(got) != len(want) {
		w.fail("Run(%d) ran %d callbacks %v, want %d", d, len(got), got, len(want))
	}
	for i, f := range got {
		// order by due time; equal due times in any order
		if w.at(want, f.id) != want[i].at {
			w.fail("Run(%d) ran callbacks %v, want due order %v", d, got, ids(want))
		}
		if f.now != end {
			w.fail("callback %d saw Now()=%d, want %d", f.id, f.now, end)
		}
	}
	for _, m := range w.tms {
		if m.ct == nil && m.fires != m.expect {
			w.fail("callback %d ran %d times, want %d", m.id, m.fires, m.expect)
		}
	}
	return len(due)
}

func (w *world) at(ms []*tm, id int) mclock.AbsTime {
	for _, m := range ms {
		if m.id == id {
			return m.at
		}
	}
	return -1 << 62
}

func ids(ms []*tm) (out []int) {
	for _, m := range ms {
		out = append(out, m.id)
	}
	return
}

func TestWait(t *testing.T) {
	vh.Run(t, vh.Opt{N: 6000, Rule: "goroutines waiting for n timers and sleepers, while timers are added, stopped and run, in a fake-time bubble; non-trivial: a waiter had to wait"}, func(c *vh.C) {
		type step struct {
			kind string
			d    time.Duration
			i    int
		}
		waits := rapid.SliceOfN(rapid.IntRange(0, 4), 1, 3).Draw(c.T, "waits")
		sleeps := rapid.SliceOfN(rapid.IntRange(1, 9), 0, 3).Draw(c.T, "sleeps")
		n := rapid.IntRange(1, 12).Draw(c.T, "n")
		var steps []step
		for i := 0; i < n; i++ {
			steps = append(steps, step{rapid.SampledFrom([]string{"add", "add", "timer", "stop", "run", "reset"}).Draw(c.T, "k"), time.Duration(rapid.IntRange(1, 9).Draw(c.T, "d")), rapid.IntRange(0, 11).Draw(c.T, "i")})
		}
		c.Note(true, "%v %v %v", waits, sleeps, steps)
		c.Bubble(func(b *vh.B) {
			s := new(mclock.Simulated)
			done := make([]bool, len(waits))
			woke := make([]bool, len(sleeps))
			wakeAt := make([]mclock.AbsTime, len(sleeps))
			pendingSleep := 0
			for i, d := range sleeps {
				b.Go(func() { s.Sleep(time.Duration(d)); woke[i] = true })
				wakeAt[i] = mclock.AbsTime(d)
				pendingSleep++
			}
			synctest.Wait()
			for i, k := range waits {
				b.Go(func() { s.WaitForTimers(k); done[i] = true })
			}
			type mt struct {
				t       mclock.Timer
				ct      mclock.ChanTimer
				at      mclock.AbsTime
				pending bool
			}
			var ts []*mt
			now := mclock.AbsTime(0)
			reached := make([]bool, len(waits))
			check := func(what string) {
				synctest.Wait()
				act := 0
				for _, m := range ts {
					if m.pending {
						act++
					}
				}
				for i := range sleeps {
					if wakeAt[i] > now {
						act++
					}
				}
				for i := range sleeps {
					ranPast := wakeAt[i] <= now && what != "start"
					if woke[i] && wakeAt[i] > now {
						b.Errorf("after %s: sleeper of %d woke at %d", what, wakeAt[i], now)
					}
					if !woke[i] && ranPast && wakeAt[i] > 0 {
						b.Errorf("after %s: sleeper of %d still asleep at %d", what, wakeAt[i], now)
					}
				}
				for i, k := range waits {
					if act >= k {
						reached[i] = true
					}
					if reached[i] && !done[i] {
						b.Errorf("after %s: WaitForTimers(%d) still waits with %d timers pending", what, k, act)
					}
					if done[i] && !reached[i] {
						b.Errorf("after %s: WaitForTimers(%d) returned, there were never more than %d timers pending", what, k, act)
					}
				}
			}
			check("start")
			for _, st := range steps {
				switch st.kind {
				case "add":
					m := &mt{at: now.Add(st.d), pending: true}
					m.t = s.AfterFunc(st.d, func() {})
					ts = append(ts, m)
				case "timer":
					m := &mt{at: now.Add(st.d), pending: true}
					m.ct = s.NewTimer(st.d)
					m.t = m.ct
					ts = append(ts, m)
				case "stop":
					if len(ts) > 0 {
						m := ts[st.i%len(ts)]
						m.t.Stop()
						m.pending = false
					}
				case "reset":
					if len(ts) > 0 {
						if m := ts[st.i%len(ts)]; m.ct != nil {
							select {
							case <-m.ct.C():
							default:
							}
							m.ct.Reset(st.d)
							m.at, m.pending = now.Add(st.d), true
						}
					}
				case "run":
					s.Run(st.d)
					now = now.Add(st.d)
					for _, m := range ts {
						if m.at <= now {
							m.pending = false
						}
					}
				}
				check(st.kind)
			}
			// let everybody go
			for i := 0; i < 5; i++ {
				s.AfterFunc(1<<40, func() {})
			}
			s.Run(100)
		})
	})
}

func TestSystem(t *testing.T) {
	vh.Run(t, vh.Opt{N: 6000, Rule: "histories of operations on system-clock timers in a fake-time bubble, compared with a due-time model; non-trivial: all"}, func(c *vh.C) {
		type step struct {
			kind string
			d    time.Duration
			i    int
		}
		n := rapid.IntRange(1, 20).Draw(c.T, "n")
		var steps []step
		for i := 0; i < n; i++ {
			d := time.Duration(rapid.IntRange(1, 12).Draw(c.T, "d")) * 2
			k := rapid.SampledFrom([]string{"func", "timer", "after", "stop", "reset", "run", "run", "sleep", "undrained"}).Draw(c.T, "k")
			steps = append(steps, step{k, d, rapid.IntRange(0, 19).Draw(c.T, "i")})
		}
		c.Note(true, "%v", steps)
		c.Bubble(func(b *vh.B) {
			var sys mclock.System
			type mt struct {
				t       mclock.Timer
				ct      mclock.ChanTimer
				ch      <-chan mclock.AbsTime
				at      time.Time
				pending bool
				fires   int
				expect  int
			}
			var ts []*mt
			began := sys.Now() // real time also passes in the bubble
			settle := func(what string) {
				synctest.Wait()
				for i, m := range ts {
					if m.pending && !m.at.After(time.Now()) {
						m.pending = false
						m.expect++
					}
					if m.ch != nil {
						select {
						case v := <-m.ch:
							m.fires++
							if end := sys.Now(); v < began || v > end {
								b.Errorf("after %s: timer %d delivered the time %d, it fired between %d and %d", what, i, v, began, end)
							}
						default:
						}
					}
					if m.fires != m.expect {
						b.Errorf("after %s: timer %d fired %d times, want %d", what, i, m.fires, m.expect)
						m.fires = m.expect
					}
				}
			}
			for _, st := range steps {
				began = sys.Now()
				switch st.kind {
				case "func":
					m := &mt{at: time.Now().Add(st.d), pending: true}
					m.t = sys.AfterFunc(st.d, func() { m.fires++ })
					ts = append(ts, m)
				case "timer":
					m := &mt{at: time.Now().Add(st.d), pending: true}
					m.ct = sys.NewTimer(st.d)
					m.t, m.ch = m.ct, m.ct.C()
					ts = append(ts, m)
				case "after":
					m := &mt{at: time.Now().Add(st.d), pending: true}
					m.ch = sys.After(st.d)
					ts = append(ts, m)
				case "stop":
					if len(ts) > 0 {
						if m := ts[st.i%len(ts)]; m.t != nil {
							if got := m.t.Stop(); got != m.pending {
								b.Errorf("Stop() = %v with pending=%v", got, m.pending)
							}
							m.pending = false
						}
					}
				case "reset":
					if len(ts) > 0 {
						if m := ts[st.i%len(ts)]; m.ct != nil {
							m.ct.Reset(st.d)
							m.at, m.pending = time.Now().Add(st.d), true
						}
					}
				case "undrained": // fires twice before anybody reads: one value, and nothing hangs
					if len(ts) > 0 {
						if m := ts[st.i%len(ts)]; m.ct != nil {
							m.ct.Reset(st.d)
							time.Sleep(st.d + 1)
							m.ct.Reset(st.d)
							time.Sleep(st.d + 1)
							m.at, m.pending = time.Now(), true
						}
					}
				case "run":
					time.Sleep(st.d + 1 - st.d%2)
				case "sleep":
					t0 := time.Now()
					sys.Sleep(st.d)
					if got := time.Since(t0); got != st.d {
						b.Errorf("Sleep(%d) took %d", st.d, got)
					}
				}
				settle(st.kind)
			}
			began = sys.Now()
			time.Sleep(100)
			settle("end")
		})
	})
}

func TestAbsTime(t *testing.T) {
	vh.Run(t, vh.Opt{N: 5000, Rule: "time arithmetic and monotonic readings of the system clock; non-trivial: all"}, func(c *vh.C) {
		a := mclock.AbsTime(rapid.Int64Range(-1<<61, 1<<61).Draw(c.T, "a"))
		d := time.Duration(rapid.Int64Range(-1<<61, 1<<61).Draw(c.T, "d"))
		c.Note(true, "%d %d", a, d)
		if got := a.Add(d); int64(got) != int64(a)+int64(d) || got.Sub(a) != d || a.Sub(got) != -d {
			c.Fatalf("AbsTime(%d).Add(%d) = %d, Sub = %d", a, d, got, got.Sub(a))
		}
		x, y := mclock.Now(), mclock.System{}.Now()
		if y < x {
			c.Fatalf("the clock went backwards: %d, %d", x, y)
		}
	})
}
