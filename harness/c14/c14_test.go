// Package c14 checks property C14: resubscription.
package c14

import (
	"context"
	"fmt"
	"slices"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"flychain/common/mclock"
	"flychain/event"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

// Times are in units of an hour of fake time: the code under test also looks
// at the real clock to tell slow attempts from quick ones, which must not
// matter here.
const unit = time.Hour

type attempt struct {
	Takes  int  // units until it returns
	Polite bool // returns as soon as its context is cancelled
	OK     bool // returns a subscription
	LateOK bool // returns a subscription after its context was cancelled, too
	Lives  int  // the subscription fails or ends after so many units; -1: never
	Ends   bool // it ends without error (else it fails)
	Closes bool // ends by closing its channel, not by sending nil
}

type program struct {
	Max      int // backoff maximum / 10
	Attempts []attempt
	Unsubs   []int // in half units
	WithErr  bool
}

type sub struct {
	id   int
	err  chan error
	once sync.Once
	w    *world
	n    int
}

func (s *sub) Err() <-chan error { return s.err }
func (s *sub) Unsubscribe() {
	s.w.mu.Lock()
	s.n++
	s.w.mu.Unlock()
	s.once.Do(func() {
		s.w.mu.Lock()
		s.w.live--
		s.w.mu.Unlock()
	})
}

type serr struct{ n int }

func (e *serr) Error() string { return fmt.Sprint("inner failure ", e.n) }

type call struct {
	at   time.Duration
	last error
}

type world struct {
	mu       sync.Mutex
	subs     []*sub
	live     int
	maxLive  int
	calls    []call
	running  int
	ctxs     []context.Context
	canceled []time.Duration // when a polite attempt saw its context cancelled
}

func run(b *vh.B, p program) {
	start := time.Now()
	since := func() time.Duration { return time.Since(start) }
	w := &world{}
	errs := make([]error, len(p.Attempts)+1)
	for i := range errs {
		errs[i] = &serr{i}
	}
	fn := func(ctx context.Context, last error) (event.Subscription, error) {
		w.mu.Lock()
		i := len(w.calls)
		w.calls = append(w.calls, call{since(), last})
		w.ctxs = append(w.ctxs, ctx)
		w.canceled = append(w.canceled, -1)
		w.running++
		if w.running > 1 {
			b.Errorf("two attempts run at once")
		}
		w.mu.Unlock()
		defer func() { w.mu.Lock(); w.running--; w.mu.Unlock() }()
		if ctx.Err() != nil && since() < time.Duration(slices.Min(p.Unsubs))*unit/2 {
			b.Errorf("attempt %d starts with a cancelled context", i)
		}
		a := attempt{Takes: 1 << 40, Polite: true}
		if i < len(p.Attempts) {
			a = p.Attempts[i]
		}
		var done <-chan struct{}
		if a.Polite {
			done = ctx.Done()
		}
		tm := time.NewTimer(time.Duration(min(a.Takes, 1<<19)) * unit)
		defer tm.Stop()
		cancelled := false
		select {
		case <-tm.C:
		case <-done:
			cancelled = true
			w.mu.Lock()
			w.canceled[i] = since()
			w.mu.Unlock()
		}
		if !a.OK && !cancelled || cancelled && !a.LateOK {
			return nil, fmt.Errorf("attempt %d failed", i)
		}
		s := &sub{id: i, err: make(chan error, 1), w: w}
		w.mu.Lock()
		w.subs = append(w.subs, s)
		w.live++
		w.maxLive = max(w.maxLive, w.live)
		w.mu.Unlock()
		if a.Lives >= 0 {
			b.Go(func() {
				time.Sleep(time.Duration(a.Lives) * unit)
				switch {
				case !a.Ends:
					s.err <- errs[i]
				case a.Closes:
					close(s.err)
				default:
					s.err <- nil
				}
			})
		}
		return s, nil
	}
	bmax := time.Duration(p.Max) * 10 * unit
	var s event.Subscription
	if p.WithErr {
		s = event.ResubscribeErr(bmax, fn)
	} else {
		s = event.Resubscribe(bmax, func(ctx context.Context) (event.Subscription, error) { return fn(ctx, nil) })
	}

	// the reference run
	var (
		want    []call
		ended   = time.Duration(-1)
		tie     bool
		firstU  = time.Duration(p.Unsubs[0]) * unit / 2
		t       time.Duration
		last    error
		fails   int
		wantCan = -1
	)
	for _, u := range p.Unsubs {
		firstU = min(firstU, time.Duration(u)*unit/2)
	}
	for i := 0; ended < 0; i++ {
		l := last
		if !p.WithErr {
			l = nil
		}
		want = append(want, call{t, l})
		a := attempt{Takes: 1 << 40, Polite: true}
		if i < len(p.Attempts) {
			a = p.Attempts[i]
		}
		// within(d): the wait of d from t; reports whether Unsubscribe comes first
		within := func(d time.Duration) bool {
			if firstU == t+d || firstU == t {
				tie = true
			}
			if firstU < t+d {
				return true
			}
			t += d
			return false
		}
		if within(time.Duration(min(a.Takes, 1<<19)) * unit) {
			wantCan = i
			if a.Polite {
				ended = max(firstU, t)
			} else {
				ended = t + time.Duration(a.Takes)*unit
			}
			break
		}
		if !a.OK {
			fails++
			pause := bmax / 10
			for k := 0; k < fails && pause < bmax; k++ {
				pause *= 2
			}
			if within(min(pause, bmax)) {
				ended = firstU
			}
			continue
		}
		lives := time.Duration(a.Lives) * unit
		if a.Lives < 0 {
			lives = 1 << 61
		}
		if within(lives) {
			ended = firstU
			break
		}
		if a.Ends {
			ended = t
			break
		}
		last = errs[i]
	}

	var wg sync.WaitGroup
	var umu sync.Mutex
	errClosed := time.Duration(-1)
	wg.Add(1)
	b.Go(func() {
		defer wg.Done()
		err, ok := <-s.Err()
		if ok {
			b.Errorf("the error channel delivered %v", err)
		}
		umu.Lock()
		errClosed = since()
		umu.Unlock()
	})
	for _, u := range p.Unsubs {
		wg.Add(1)
		b.Go(func() {
			defer wg.Done()
			at := time.Duration(u) * unit / 2
			time.Sleep(at)
			s.Unsubscribe()
			if !tie && since() != max(at, ended) {
				b.Errorf("Unsubscribe at %v returned at %v, want %v", at, since(), max(at, ended))
			}
			w.mu.Lock()
			if w.live != 0 {
				b.Errorf("%d inner subscriptions are live after Unsubscribe returned", w.live)
			}
			if w.running != 0 {
				b.Errorf("an attempt is running after Unsubscribe returned")
			}
			n := len(w.calls)
			w.mu.Unlock()
			s.Unsubscribe()
			time.Sleep(1000 * unit)
			w.mu.Lock()
			if len(w.calls) != n {
				b.Errorf("another attempt after Unsubscribe returned")
			}
			w.mu.Unlock()
		})
	}
	fin := make(chan bool)
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(1 << 20 * unit):
		b.Errorf("Unsubscribe does not return")
		return
	}
	synctest.Wait()
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.maxLive > 1 {
		b.Errorf("%d inner subscriptions were live at once", w.maxLive)
	}
	for _, x := range w.subs {
		if x.n == 0 {
			b.Errorf("inner subscription %d was never unsubscribed", x.id)
		}
	}
	for i, ctx := range w.ctxs {
		if ctx.Err() == nil {
			b.Errorf("the context of attempt %d is never cancelled", i)
		}
	}
	if tie {
		return
	}
	if errClosed != ended {
		b.Errorf("the error channel closed at %v, want %v", errClosed, ended)
	}
	if len(w.calls) != len(want) {
		b.Errorf("attempts at %v, want %v", w.calls, want)
		return
	}
	for i := range want {
		if w.calls[i] != want[i] {
			b.Errorf("attempt %d at %v, want %v (all: %v, want %v)", i, w.calls[i], want[i], w.calls, want)
		}
	}
	if wantCan >= 0 && wantCan < len(p.Attempts) && p.Attempts[wantCan].Polite || wantCan >= len(p.Attempts) {
		if w.canceled[wantCan] != firstU {
			b.Errorf("the context of running attempt %d was cancelled at %v, want %v", wantCan, w.canceled[wantCan], firstU)
		}
	}
}

func TestResubscribe(t *testing.T) {
	vh.Run(t, vh.Opt{N: 12000, Rule: "scripts of up to 7 attempts (error or success, quick or slow, heeding the context or not, late success), inner subscriptions that fail, end or stay, and 1-3 Unsubscribe calls at chosen times (half of them at the very time of another event), in fake time under the race detector against a reference run; non-trivial: at least two attempts and one success"}, func(c *vh.C) {
		p := program{Max: rapid.IntRange(1, 8).Draw(c.T, "max"), WithErr: rapid.Bool().Draw(c.T, "witherr")}
		oks := 0
		total := 0
		for i := rapid.IntRange(0, 7).Draw(c.T, "attempts"); i > 0; i-- {
			a := attempt{
				Takes:  rapid.SampledFrom([]int{0, 0, 1, 2, 5}).Draw(c.T, "takes"),
				Polite: rapid.Bool().Draw(c.T, "polite"), OK: rapid.Bool().Draw(c.T, "ok"), LateOK: rapid.Bool().Draw(c.T, "late"),
				Lives: rapid.SampledFrom([]int{0, 0, 1, 3, 7, -1}).Draw(c.T, "lives"),
				Ends:  rapid.IntRange(0, 4).Draw(c.T, "ends") == 0, Closes: rapid.Bool().Draw(c.T, "closes"),
			}
			if a.OK {
				oks++
				total += a.Lives
			} else {
				total += 5 * p.Max
			}
			total += a.Takes
			p.Attempts = append(p.Attempts, a)
		}
		nu := rapid.IntRange(1, 3).Draw(c.T, "unsubs")
		for i := range p.Attempts {
			if nu > 1 {
				// A second caller may wait on a lock while a deaf attempt runs, and
				// fake time stands still while somebody waits on a lock.
				p.Attempts[i].Polite = true
			}
		}
		for i := nu; i > 0; i-- {
			u := rapid.IntRange(0, 2*max(total, 0)+10).Draw(c.T, "unsub")
			if rapid.IntRange(0, 3).Draw(c.T, "exact") > 0 {
				u |= 1 // never at the time of another event
			}
			p.Unsubs = append(p.Unsubs, u)
		}
		c.Note(len(p.Attempts) > 1 && oks > 0, "%+v", p)
		c.Bubble(func(b *vh.B) { run(b, p) })
	})
}

// TestBackoff: an attempt that failed only after more than the maximum resets
// the pause. The code reads the real clock, which a fake-time bubble does not
// stop, so a long attempt here is long in both.
func TestBackoff(t *testing.T) {
	vh.Run(t, vh.Opt{N: 120, Rule: "scripts of 2-8 attempts that fail at once, fail after more than the maximum back-off, or succeed for a moment; the pause before each following attempt is compared with its definition; non-trivial: a long attempt after a quick one"}, func(c *vh.C) {
		const bmax = 20 * time.Millisecond
		kinds := rapid.SliceOfN(rapid.SampledFrom([]string{"quick", "quick", "quick", "long", "ok"}), 2, 8).Draw(c.T, "kinds")
		withErr := rapid.Bool().Draw(c.T, "witherr")
		reset := false
		for i := 1; i < len(kinds); i++ {
			reset = reset || kinds[i] == "long" && kinds[i-1] == "quick"
		}
		c.Note(reset, "%v", kinds)
		c.Bubble(func(b *vh.B) {
			type stamp struct {
				fake time.Time
				real mclock.AbsTime
			}
			now := func() stamp { return stamp{time.Now(), mclock.Now()} }
			var in, out []stamp
			done := make(chan bool)
			fn := func(context.Context) (event.Subscription, error) {
				i := len(in)
				in = append(in, now())
				defer func() { out = append(out, now()) }()
				if i == len(kinds) {
					close(done)
				}
				if i >= len(kinds) {
					return nil, fmt.Errorf("over")
				}
				switch kinds[i] {
				case "long":
					for t0 := mclock.Now(); mclock.Now()-t0 <= mclock.AbsTime(bmax); {
						ts := syscall.NsecToTimespec(int64(bmax / 4))
						syscall.Nanosleep(&ts, nil)
					}
					time.Sleep(bmax + 1)
				case "ok":
					return event.NewSubscription(func(<-chan struct{}) error { return fmt.Errorf("gone") }), nil
				}
				return nil, fmt.Errorf("attempt %d failed", i)
			}
			began := now()
			var s event.Subscription
			if withErr {
				s = event.ResubscribeErr(bmax, func(ctx context.Context, _ error) (event.Subscription, error) { return fn(ctx) })
			} else {
				s = event.Resubscribe(bmax, fn)
			}
			<-done
			s.Unsubscribe()
			wait := bmax / 10
			for i, k := range kinds {
				want := time.Duration(0)
				if k != "ok" {
					prev := began // the code read the clock after this
					if i > 0 {
						prev = out[i-1]
					}
					real := time.Duration(in[i+1].real - prev.real)
					switch {
					case k == "long":
						wait = bmax / 10
					case real > bmax:
						return // a quick attempt took long on a busy machine
					default:
						wait = min(2*wait, bmax)
					}
					want = wait
				}
				got := in[i+1].fake.Sub(out[i].fake)
				if got != want {
					b.Errorf("attempts %v: the pause after attempt %d was %v, want %v", kinds, i, got, want)
					return
				}
			}
		})
	})
}
