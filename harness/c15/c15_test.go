// Package c15 checks property C15: the subscription scope.
package c15

import (
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"flychain/event"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

type fake struct {
	n    atomic.Int32
	err  chan error
	once sync.Once
	slow int           // how often Unsubscribe gives way to others
	in   chan struct{} // if set, Unsubscribe reports here and waits for gate
	gate chan struct{}
}

func newFake() *fake { return &fake{err: make(chan error, 2)} }

func (f *fake) Err() <-chan error { return f.err }
func (f *fake) Unsubscribe() {
	f.n.Add(1)
	for i := 0; i < f.slow; i++ {
		runtime.Gosched()
	}
	if f.in != nil {
		f.in <- struct{}{}
		<-f.gate
	}
	f.once.Do(func() { close(f.err) })
}

func TestSequential(t *testing.T) {
	vh.Run(t, vh.Opt{N: 15000, Rule: "histories of up to 40 track, unsubscribe (repeated, by handle or underneath), fail, close and count operations against a set model, with several scopes; non-trivial: at least two tracked, one unsubscribed and a close"}, func(c *vh.C) {
		type item struct {
			f       *fake
			h       event.Subscription
			scope   int
			tracked bool
			direct  bool
			errs    []error
		}
		nsc := rapid.IntRange(1, 2).Draw(c.T, "scopes")
		scopes := make([]event.SubscriptionScope, nsc)
		closed := make([]bool, nsc)
		var items []*item
		var ops []string
		fail := func(format string, args ...any) {
			c.Fatalf("%s\nafter: %s", fmt.Sprintf(format, args...), strings.Join(ops, "; "))
		}
		uns, closes := 0, 0
		for i := rapid.IntRange(1, 40).Draw(c.T, "n"); i > 0; i-- {
			op := rapid.SampledFrom([]string{"track", "track", "track", "unsub", "unsub", "again", "direct", "err", "close", "same"}).Draw(c.T, "op")
			sc := rapid.IntRange(0, nsc-1).Draw(c.T, "sc")
			if len(items) == 0 && op != "close" {
				op = "track"
			}
			var it *item
			if len(items) > 0 {
				it = items[rapid.IntRange(0, len(items)-1).Draw(c.T, "i")]
			}
			if op == "close" && rapid.IntRange(0, 2).Draw(c.T, "really") > 0 {
				continue
			}
			ops = append(ops, fmt.Sprintf("%s(%d)", op, sc))
			switch op {
			case "track", "same":
				n := &item{scope: sc}
				if op == "same" && it.h != nil && !it.direct && !closed[sc] && !closed[it.scope] && it.f.n.Load() == 0 {
					n.f = it.f // the same subscription tracked twice
					it.direct, n.direct = true, true
				} else {
					n.f = newFake()
				}
				n.h = scopes[sc].Track(n.f)
				if closed[sc] {
					if n.h != nil {
						fail("Track of a closed scope returned %v", n.h)
					}
					if n.f.n.Load() != 0 {
						fail("Track of a closed scope touched the subscription")
					}
					continue
				}
				if n.h == nil {
					fail("Track returned nil")
				}
				n.tracked = true
				items = append(items, n)
			case "unsub", "again":
				before := it.f.n.Load()
				it.h.Unsubscribe()
				if it.tracked {
					uns++
					if it.f.n.Load() == before {
						fail("Unsubscribe of a handle does not reach the subscription")
					}
				}
				it.tracked = false
				if op == "again" {
					it.h.Unsubscribe()
				}
			case "direct":
				it.f.Unsubscribe()
				it.direct = true
			case "err":
				if it.f.n.Load() == 0 && len(it.f.err) == 0 {
					e := errors.New("x")
					it.f.err <- e
					select {
					case g, ok := <-it.h.Err():
						if !ok || g != e {
							fail("the handle's error channel yields %v,%v", g, ok)
						}
					default:
						fail("the handle does not forward the error channel")
					}
				}
			case "close":
				closes++
				before := make([]int32, len(items))
				for k, x := range items {
					before[k] = x.f.n.Load()
				}
				scopes[sc].Close()
				for k, x := range items {
					want := before[k]
					for _, y := range items {
						if y.f == x.f && y.scope == sc && y.tracked {
							want++
						}
					}
					if got := x.f.n.Load(); got != want {
						fail("Close called Unsubscribe %d times on subscription %d, want %d", got-before[k], k, want-before[k])
					}
				}
				for _, x := range items {
					if x.scope == sc {
						x.tracked = false
					}
				}
				closed[sc] = true
			}
			for s := range scopes {
				want := 0
				for _, x := range items {
					if x.scope == s && x.tracked {
						want++
					}
				}
				if got := scopes[s].Count(); got != want {
					fail("Count() = %d, want %d", got, want)
				}
			}
		}
		c.Note(len(items) > 1 && uns > 0 && closes > 0, "%s", strings.Join(ops, "; "))
	})
}

func TestConcurrent(t *testing.T) {
	vh.Run(t, vh.Opt{N: 8000, Rule: "several goroutines tracking, unsubscribing, counting and closing with pauses, over plain, function and feed subscriptions, in a fake-time bubble under the race detector; non-trivial: a close and an unsubscribe"}, func(c *vh.C) {
		type act struct {
			Kind  string
			Sleep int
			I     int
		}
		var progs [][]act
		closes, uns := 0, 0
		for i := rapid.IntRange(1, 4).Draw(c.T, "g"); i > 0; i-- {
			var as []act
			for k := rapid.IntRange(1, 7).Draw(c.T, "n"); k > 0; k-- {
				a := act{rapid.SampledFrom([]string{"track", "track", "func", "feed", "unsub", "unsub", "count", "close"}).Draw(c.T, "k"), rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(c.T, "s"), rapid.IntRange(0, 7).Draw(c.T, "i")}
				if a.Kind == "close" && rapid.Bool().Draw(c.T, "less") {
					a.Kind = "unsub"
				}
				switch a.Kind {
				case "close":
					closes++
				case "unsub":
					uns++
				}
				as = append(as, a)
			}
			progs = append(progs, as)
		}
		c.Note(closes > 0 && uns > 0, "%v", progs)
		c.Bubble(func(b *vh.B) {
			var (
				sc      event.SubscriptionScope
				feed    event.Feed
				mu      sync.Mutex
				handles []event.Subscription
				tracked []event.Subscription // underlying, with a handle
				gone    = map[int]bool{}
				refused []event.Subscription
				closed  atomic.Bool
				wg      sync.WaitGroup
			)
			live := func(s event.Subscription) bool {
				select {
				case <-s.Err():
					return false
				default:
					return true
				}
			}
			for _, as := range progs {
				wg.Add(1)
				b.Go(func() {
					defer wg.Done()
					for _, a := range as {
						time.Sleep(time.Duration(a.Sleep))
						switch a.Kind {
						case "track", "func", "feed":
							var s event.Subscription
							switch a.Kind {
							case "track":
								f := newFake()
								f.slow = a.I * 3
								s = f
							case "func":
								s = event.NewSubscription(func(q <-chan struct{}) error { <-q; return nil })
							default:
								s = feed.Subscribe(make(chan int, 1))
							}
							was := closed.Load()
							h := sc.Track(s)
							mu.Lock()
							if h == nil {
								refused = append(refused, s)
							} else {
								if was {
									b.Errorf("tracked after Close returned")
								}
								handles = append(handles, h)
								tracked = append(tracked, s)
							}
							mu.Unlock()
						case "unsub":
							mu.Lock()
							var h event.Subscription
							k := 0
							if len(handles) > 0 {
								k = a.I % len(handles)
								h = handles[k]
							}
							mu.Unlock()
							if h != nil {
								h.Unsubscribe()
								mu.Lock()
								gone[k] = true
								mu.Unlock()
							}
						case "count":
							was := closed.Load()
							if n := sc.Count(); n < 0 || was && n != 0 {
								b.Errorf("Count() = %d, closed before: %v", n, was)
							}
						case "close":
							sc.Close()
							closed.Store(true)
							if n := sc.Count(); n != 0 {
								b.Errorf("Count() = %d after Close", n)
							}
							mu.Lock()
							for i, s := range tracked {
								if _, ok := s.(*fake); ok && live(s) {
									b.Errorf("subscription %d is live although Close returned", i)
								}
							}
							mu.Unlock()
						}
					}
				})
			}
			wg.Wait()
			synctest.Wait()
			want := 0
			for i, s := range tracked {
				if l := live(s); l != (!gone[i] && !closed.Load()) {
					b.Errorf("subscription %d live=%v, unsubscribed=%v, closed=%v", i, l, gone[i], closed.Load())
				} else if l {
					want++
				}
			}
			if n := sc.Count(); n != want {
				b.Errorf("Count() = %d, want %d", n, want)
			}
			for _, s := range refused {
				if !live(s) || !closed.Load() {
					b.Errorf("a refused subscription was unsubscribed, or refused without Close")
				}
				s.Unsubscribe()
			}
			sc.Close()
			for i, s := range tracked {
				if live(s) {
					b.Errorf("subscription %d is live after Close", i)
				}
			}
		})
	})
}

// TestSlow: a subscription that takes its time to end, ended by its handle,
// does not hold up other users of the scope.
func TestSlow(t *testing.T) {
	vh.Run(t, vh.Opt{N: 400, Rule: "a handle whose subscription takes its time to end while others count, track and unsubscribe; non-trivial: all"}, func(c *vh.C) {
		n := rapid.IntRange(0, 4).Draw(c.T, "others")
		ops := rapid.SliceOfN(rapid.SampledFrom([]string{"count", "track", "unsub"}), 1, 5).Draw(c.T, "ops")
		c.Note(true, "%d %v", n, ops)
		var sc event.SubscriptionScope
		var hs []event.Subscription
		for i := 0; i < n; i++ {
			hs = append(hs, sc.Track(newFake()))
		}
		f := newFake()
		f.in, f.gate = make(chan struct{}, 1), make(chan struct{})
		h := sc.Track(f)
		ended := make(chan bool)
		go func() { h.Unsubscribe(); close(ended) }()
		<-f.in
		done := make(chan string, 1)
		go func() {
			for _, o := range ops {
				switch o {
				case "track":
					x := sc.Track(newFake())
					if x == nil {
						done <- "Track returned nil"
						return
					}
					hs = append(hs, x)
				case "unsub":
					if len(hs) > 0 {
						hs[0].Unsubscribe()
						hs = hs[1:]
					}
				}
				if got := sc.Count(); got != len(hs) && got != len(hs)+1 { // the slow one is on its way out
					done <- fmt.Sprintf("Count() = %d with %d others", got, len(hs))
					return
				}
			}
			done <- ""
		}()
		stuck := false
		select {
		case msg := <-done:
			if msg != "" {
				c.Fatalf("%s", msg)
			}
		case <-time.After(time.Minute):
			stuck = true
		}
		close(f.gate)
		<-ended
		if stuck {
			c.Fatalf("the scope cannot be used while a handle is being unsubscribed")
		}
		if got := sc.Count(); got != len(hs) {
			c.Fatalf("Count() = %d, want %d", got, len(hs))
		}
		sc.Close()
	})
}
