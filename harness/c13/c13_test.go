// Package c13 checks property C13: function subscriptions.
package c13

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"flychain/event"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

type prod struct {
	EndAt    int  // fake time at which it ends by itself; -1: only when told to quit
	Err      bool // ends by itself with an error
	QuitErr  bool // returns an error when told to quit
	Linger   int  // pause before returning after being told to quit
	Deaf     bool // does not look at the quit channel
	SendSome int  // values it hands over to a channel before that
}

type program struct {
	P       prod
	Unsubs  []int // fake times of Unsubscribe calls by different goroutines
	Unit    time.Duration
	Readers []int // fake times at which somebody starts reading Err()
}

type perr struct{ n int }

func (e *perr) Error() string { return fmt.Sprint("producer error ", e.n) }

func run(b *vh.B, p program) {
	errSelf, errQuit := &perr{1}, &perr{2}
	start := time.Now()
	since := func() int { return int(time.Since(start) / p.Unit) }
	var (
		starts   atomic.Int32
		retAt    atomic.Int64
		ret      atomic.Bool
		quitSeen atomic.Int64 // fake time at which quit was seen closed
		byQuit   atomic.Bool
		quitCh   <-chan struct{}
		mu       sync.Mutex
	)
	quitSeen.Store(-1)
	s := event.NewSubscription(func(quit <-chan struct{}) error {
		starts.Add(1)
		mu.Lock()
		quitCh = quit
		mu.Unlock()
		defer func() { retAt.Store(int64(since())); ret.Store(true) }()
		self := make(<-chan time.Time)
		if p.P.EndAt >= 0 {
			self = time.After(time.Duration(p.P.EndAt) * p.Unit)
		}
		q := quit
		if p.P.Deaf {
			q = nil
		}
		select {
		case <-self:
			if p.P.Err {
				return errSelf
			}
			return nil
		case <-q:
			byQuit.Store(true)
			quitSeen.Store(int64(since()))
			time.Sleep(time.Duration(p.P.Linger) * p.Unit)
			if p.P.QuitErr {
				return errQuit
			}
			return nil
		}
	})
	firstUnsub := -1
	for _, at := range p.Unsubs {
		if firstUnsub < 0 || at < firstUnsub {
			firstUnsub = at
		}
	}
	var (
		wg      sync.WaitGroup
		errs    []error
		errAt   []int
		closes  int
		retMin  = -1 // earliest return of an Unsubscribe call that was alone at its time
		callers = map[int]int{}
	)
	for _, at := range p.Unsubs {
		callers[at]++
	}
	for _, at := range p.Unsubs {
		wg.Add(1)
		b.Go(func() {
			defer wg.Done()
			time.Sleep(time.Duration(at)*p.Unit - time.Since(start))
			s.Unsubscribe()
			if at == firstUnsub && callers[at] == 1 {
				// this call ended it: the producer must have returned
				if !ret.Load() {
					b.Errorf("Unsubscribe returned before the producer did")
				}
				mu.Lock()
				retMin = since()
				mu.Unlock()
				s.Unsubscribe() // and again
			}
		})
	}
	for _, at := range p.Readers {
		wg.Add(1)
		b.Go(func() {
			defer wg.Done()
			time.Sleep(time.Duration(at) * p.Unit)
			for {
				err, ok := <-s.Err()
				mu.Lock()
				if !ok {
					closes++
					mu.Unlock()
					return
				}
				errs = append(errs, err)
				errAt = append(errAt, since())
				mu.Unlock()
			}
		})
	}
	fin := make(chan bool)
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(time.Hour + 1000*p.Unit):
		b.Errorf("Unsubscribe or Err blocks for ever")
		return
	}
	time.Sleep(100 * p.Unit)
	synctest.Wait()
	for i := 0; i < 3; i++ { // the channel is closed, for good; an unread error comes first
		select {
		case err, ok := <-s.Err():
			if ok && i == 0 {
				errs = append(errs, err)
			} else if ok {
				b.Errorf("another error: %v", err)
			}
		default:
			b.Errorf("the error channel is open after the producer ended")
		}
	}
	s.Unsubscribe()
	if n := starts.Load(); n != 1 {
		b.Errorf("the producer started %d times", n)
	}
	end := p.P.EndAt
	self := end >= 0 && (firstUnsub < 0 || end < firstUnsub)
	tie := end >= 0 && end == firstUnsub
	switch {
	case tie:
		if len(errs) > 1 || len(errs) == 1 && (!p.P.Err || errs[0] != error(errSelf)) {
			b.Errorf("errors %v", errs)
		}
	case self && p.P.Err:
		if len(errs) != 1 || errs[0] != error(errSelf) {
			b.Errorf("the producer failed at %d before Unsubscribe (%d), but the error channel had %v", end, firstUnsub, errs)
		}
	default:
		if len(errs) != 0 {
			b.Errorf("unexpected errors %v", errs)
		}
	}
	select {
	case <-quitCh:
		if self {
			b.Errorf("the quit channel is closed although the producer ended by itself")
		}
	default:
		if !self && !tie {
			b.Errorf("the quit channel is open after Unsubscribe")
		}
	}
	if byQuit.Load() && int(quitSeen.Load()) != firstUnsub && !tie {
		b.Errorf("the quit channel closed at %d, Unsubscribe was called at %d", quitSeen.Load(), firstUnsub)
	}
	if !self && !tie && retMin >= 0 && int64(retMin) != retAt.Load() {
		b.Errorf("Unsubscribe returned at %d, the producer at %d", retMin, retAt.Load())
	}
}

func TestSubscription(t *testing.T) {
	vh.Run(t, vh.Opt{N: 12000, Rule: "producers that end by themselves at a chosen time with or without error, or when told to, at once or later, against up to 4 Unsubscribe calls and up to 2 readers of the error channel at chosen times, on real threads in a fake-time bubble under the race detector; non-trivial: an Unsubscribe and a producer that can end by itself, or several Unsubscribes"}, func(c *vh.C) {
		tm := func(l string) int { return rapid.SampledFrom([]int{0, 0, 1, 2, 2, 3, 5}).Draw(c.T, l) }
		p := program{Unit: rapid.SampledFrom([]time.Duration{1, 1, time.Second, time.Hour}).Draw(c.T, "unit"), P: prod{EndAt: -1, Err: rapid.Bool().Draw(c.T, "err"), QuitErr: rapid.Bool().Draw(c.T, "qerr"), Linger: tm("linger")}}
		if rapid.Bool().Draw(c.T, "self") {
			p.P.EndAt = tm("end")
			p.P.Deaf = rapid.Bool().Draw(c.T, "deaf")
		}
		for i := rapid.IntRange(0, 4).Draw(c.T, "unsubs"); i > 0; i-- {
			p.Unsubs = append(p.Unsubs, tm("unsub"))
		}
		if len(p.Unsubs) == 0 && p.P.EndAt < 0 {
			p.Unsubs = []int{tm("unsub")}
		}
		for i := rapid.IntRange(0, 2).Draw(c.T, "readers"); i > 0; i-- {
			p.Readers = append(p.Readers, tm("reader"))
		}
		c.Note(len(p.Unsubs) > 1 || len(p.Unsubs) == 1 && p.P.EndAt >= 0, "%+v", p)
		c.Bubble(func(b *vh.B) { run(b, p) })
	})
}

// TestStream uses a subscription the way producers do: values flow until told to quit.
func TestStream(t *testing.T) {
	vh.Run(t, vh.Opt{N: 3000, Rule: "producers handing numbered values to a channel until told to quit or out of values; non-trivial: unsubscribed in the middle"}, func(c *vh.C) {
		n := rapid.IntRange(0, 8).Draw(c.T, "n")
		take := rapid.IntRange(0, 9).Draw(c.T, "take")
		fail := rapid.Bool().Draw(c.T, "fail")
		c.Note(take < n, "%d %d %v", n, take, fail)
		c.Bubble(func(b *vh.B) {
			ch := make(chan int)
			e := &perr{3}
			s := event.NewSubscription(func(quit <-chan struct{}) error {
				for i := 0; i < n; i++ {
					select {
					case ch <- i:
					case <-quit:
						return e
					}
				}
				if fail {
					return e
				}
				return nil
			})
			for i := 0; i < take; i++ {
				select {
				case v := <-ch:
					if v != i {
						b.Errorf("got %d, want %d", v, i)
					}
				case err, ok := <-s.Err():
					if i != n || ok != fail || ok && err != error(e) {
						b.Errorf("value %d of %d: error %v,%v", i, n, err, ok)
					}
					if ok {
						if _, ok := <-s.Err(); ok {
							b.Errorf("two errors")
						}
					}
					s.Unsubscribe()
					return
				}
			}
			if take < n {
				s.Unsubscribe()
				select {
				case v := <-ch:
					b.Errorf("value %d after Unsubscribe", v)
				case err, ok := <-s.Err():
					if ok {
						b.Errorf("error %v after Unsubscribe", err)
					}
				}
			}
		})
	})
}
