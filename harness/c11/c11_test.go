// Package c11 checks property C11: feeds under concurrency.
package c11

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"flychain/event"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

// An actor owns some channels; each of its channels has at most one live
// subscription at a time, so that deliveries can be told apart.
type act struct {
	Kind string // sub, unsub, recv, try, sleep, until
	Ch   int
	N    int
}

func (a act) String() string { return fmt.Sprintf("%s(%d,%d)", a.Kind, a.Ch, a.N) }

type program struct {
	Unit    time.Duration
	Senders [][]int // sleeps before each send
	Caps    []int
	Pre     []bool  // subscribed before everything starts
	Actors  [][]act // Actors[i] owns the channels with index%len(Actors)==i; helpers share them
	Others  [][]act // unsubscribe or receive on anybody's channel
}

func gen(t *rapid.T) program {
	var p program
	p.Unit = rapid.SampledFrom([]time.Duration{1, 1, time.Second, time.Hour}).Draw(t, "unit")
	sleep := func(l string) int { return rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3}).Draw(t, l) }
	for i := rapid.IntRange(1, 3).Draw(t, "senders"); i > 0; i-- {
		var s []int
		for k := rapid.IntRange(1, 5).Draw(t, "sends"); k > 0; k-- {
			s = append(s, sleep("ss"))
		}
		p.Senders = append(p.Senders, s)
	}
	nch := rapid.IntRange(1, 5).Draw(t, "nch")
	for i := 0; i < nch; i++ {
		p.Caps = append(p.Caps, rapid.SampledFrom([]int{0, 0, 1, 1, 2, 5}).Draw(t, "cap"))
		p.Pre = append(p.Pre, rapid.Bool().Draw(t, "pre"))
	}
	acts := func(kinds []string, ch func() int) (out []act) {
		for k := rapid.IntRange(1, 8).Draw(t, "acts"); k > 0; k-- {
			a := act{Kind: rapid.SampledFrom(kinds).Draw(t, "act"), Ch: ch()}
			if a.Kind == "sleep" || a.Kind == "recv" {
				a.N = sleep("as")
			}
			out = append(out, a)
		}
		return out
	}
	for i := 0; i < nch; i++ {
		p.Actors = append(p.Actors, acts([]string{"sub", "sub", "unsub", "unsub", "recv", "recv", "try", "sleep"}, func() int { return i }))
	}
	for i := rapid.IntRange(0, 2).Draw(t, "others"); i > 0; i-- {
		p.Others = append(p.Others, acts([]string{"unsub", "unsub", "try", "recv", "sleep"}, func() int { return rapid.IntRange(0, nch-1).Draw(t, "och") }))
	}
	return p
}

type subRec struct {
	ch             int
	s0, s1, u0, u1 int64 // clock stamps around Subscribe and Unsubscribe
	sub            event.Subscription
}

type sendRec struct {
	v, n   int
	t0, t1 int64
	sender int
}

const inf = int64(1) << 60

func run(b *vh.B, p program, subscribe func(chan int) event.Subscription, send func(int) int) {
	var clock atomic.Int64
	tick := func() int64 { return clock.Add(1) }
	type chState struct {
		mu   sync.Mutex
		ch   chan int
		rcv  chan bool // held while receiving, so that the order is known
		cur  *subRec   // live subscription
		all  []*subRec // every subscription of this channel
		vals []int     // values received, in order
	}
	var chs []*chState
	for _, c := range p.Caps {
		chs = append(chs, &chState{ch: make(chan int, c), rcv: make(chan bool, 1)})
	}
	doSub := func(i int) {
		c := chs[i]
		r := &subRec{ch: i, u0: inf, u1: inf}
		c.mu.Lock()
		first := len(c.all) == 0
		if first {
			c.all = append(c.all, r)
		}
		c.mu.Unlock()
		if !first { // a channel is subscribed once only: values in it then belong to that subscription
			return
		}
		t0 := time.Now()
		r.s0 = tick()
		r.sub = subscribe(c.ch)
		r.s1 = tick()
		if d := time.Since(t0); d != 0 {
			b.Errorf("Subscribe waited %v", d)
		}
		c.mu.Lock()
		c.cur = r
		c.mu.Unlock()
	}
	doUnsub := func(i int) {
		c := chs[i]
		c.mu.Lock()
		r := c.cur
		c.mu.Unlock()
		if r == nil {
			return
		}
		t0 := time.Now()
		st := tick()
		r.sub.Unsubscribe()
		en := tick()
		if d := time.Since(t0); d != 0 {
			b.Errorf("Unsubscribe of channel %d waited %v", i, d)
		}
		select {
		case _, ok := <-r.sub.Err():
			if ok {
				b.Errorf("an error arrived on the feed subscription of channel %d", i)
			}
		default:
			b.Errorf("error channel of channel %d still open after Unsubscribe", i)
		}
		c.mu.Lock()
		if st < r.u0 {
			r.u0 = st
		}
		if en < r.u1 {
			r.u1 = en
		}
		c.mu.Unlock()
	}
	take := func(i int, v int) {
		c := chs[i]
		c.mu.Lock()
		c.vals = append(c.vals, v)
		c.mu.Unlock()
	}
	do := func(acts []act) {
		for _, a := range acts {
			switch a.Kind {
			case "sub":
				doSub(a.Ch)
			case "unsub":
				doUnsub(a.Ch)
			case "try":
				chs[a.Ch].rcv <- true
				select {
				case v := <-chs[a.Ch].ch:
					take(a.Ch, v)
				default:
				}
				<-chs[a.Ch].rcv
			case "recv":
				chs[a.Ch].rcv <- true
				tm := time.NewTimer(time.Duration(a.N)*p.Unit + 1)
				select {
				case v := <-chs[a.Ch].ch:
					take(a.Ch, v)
				case <-tm.C:
				}
				tm.Stop()
				<-chs[a.Ch].rcv
			case "sleep":
				time.Sleep(time.Duration(a.N) * p.Unit)
			}
		}
	}
	for i, pre := range p.Pre {
		if pre {
			doSub(i)
		}
	}
	var (
		mu     sync.Mutex
		recs   []sendRec
		active sync.WaitGroup
		left   atomic.Int64
	)
	left.Store(int64(len(p.Senders)))
	for si, sleeps := range p.Senders {
		active.Add(1)
		b.Go(func() {
			defer active.Done()
			defer left.Add(-1)
			for k, d := range sleeps {
				time.Sleep(time.Duration(d) * p.Unit)
				r := sendRec{v: si*100 + k, sender: si}
				r.t0 = tick()
				r.n = send(r.v)
				r.t1 = tick()
				mu.Lock()
				recs = append(recs, r)
				mu.Unlock()
			}
		})
	}
	var scripts sync.WaitGroup
	for _, acts := range append(append([][]act{}, p.Actors...), p.Others...) {
		scripts.Add(1)
		b.Go(func() { defer scripts.Done(); do(acts) })
	}
	fin := make(chan bool)
	go func() { scripts.Wait(); close(fin) }()
	// every script ends: receives have timeouts, the feed must not hold anybody up
	select {
	case <-fin:
	case <-time.After(time.Minute + 1000*p.Unit):
		b.Errorf("Subscribe or Unsubscribe is blocked while a send waits for a slow subscriber")
	}
	// now the channels with a live subscription are received from; the others are not
	for i := 0; i < 400 && left.Load() > 0; i++ {
		synctest.Wait()
		for k, c := range chs {
			c.mu.Lock()
			live := c.cur != nil && c.cur.u1 == inf
			c.mu.Unlock()
			if live {
				select {
				case v := <-c.ch:
					take(k, v)
				default:
				}
			}
		}
		time.Sleep(p.Unit)
	}
	synctest.Wait()
	if left.Load() > 0 {
		b.Errorf("a send does not return although every remaining subscriber takes values")
		for _, c := range chs { // let it go
			go func() {
				for {
					select {
					case <-c.ch:
					case <-time.After(time.Minute):
						return
					}
				}
			}()
		}
		time.Sleep(10 * time.Minute)
		return
	}
	active.Wait()
	// drain the buffers
	for k, c := range chs {
		for {
			select {
			case v := <-c.ch:
				take(k, v)
				continue
			default:
			}
			break
		}
	}
	sort.Slice(recs, func(i, j int) bool { return recs[i].t0 < recs[j].t0 })
	byV := map[int]sendRec{}
	sum := map[int]int{}
	for _, r := range recs {
		byV[r.v] = r
	}
	pos := make([]map[int]int, len(chs))
	for k, c := range chs {
		pos[k] = map[int]int{}
		for i, v := range c.vals {
			if _, ok := byV[v]; !ok {
				b.Errorf("channel %d received %d, which nobody sent", k, v)
			}
			if _, dup := pos[k][v]; dup {
				b.Errorf("channel %d received %d twice", k, v)
			}
			pos[k][v] = i
			sum[v]++
		}
		for _, r := range recs {
			_, got := pos[k][r.v]
			var sr *subRec
			if len(c.all) > 0 {
				sr = c.all[0]
			}
			switch {
			case sr == nil || sr.s0 > r.t1 || sr.u1 < r.t0:
				if got {
					b.Errorf("channel %d received %d outside its subscription", k, r.v)
				}
			case sr.s1 < r.t0 && sr.u0 > r.t1:
				if !got {
					b.Errorf("channel %d was subscribed during the whole send of %d but did not get it", k, r.v)
				}
			}
		}
	}
	for _, r := range recs {
		if sum[r.v] != r.n {
			b.Errorf("Send(%d) = %d, but %d channels got it", r.v, r.n, sum[r.v])
		}
	}
	// one order for all, compatible with real time
	for _, x := range recs {
		for _, y := range recs {
			order := 0
			if x.t1 < y.t0 {
				order = 1
			}
			for k := range chs {
				px, okx := pos[k][x.v]
				py, oky := pos[k][y.v]
				if !okx || !oky || x.v == y.v {
					continue
				}
				o := 1
				if px > py {
					o = -1
				}
				if order == 0 {
					order = o
				} else if order != o {
					b.Errorf("values %d and %d arrive in different orders", x.v, y.v)
				}
			}
		}
	}
}

func check(t *testing.T, mk func() (func(chan int) event.Subscription, func(int) int)) {
	vh.Run(t, vh.Opt{N: 6000, Rule: "programs of 1-3 senders, 1-5 channels (capacity 0-5), one script per channel and up to two further scripts that subscribe, unsubscribe and receive with pauses, run on real threads in a fake-time bubble under the race detector; non-trivial: an unsubscribe and at least two sends"}, func(c *vh.C) {
		p := gen(c.T)
		sends, uns := 0, 0
		for _, s := range p.Senders {
			sends += len(s)
		}
		for _, as := range append(append([][]act{}, p.Actors...), p.Others...) {
			for _, a := range as {
				if a.Kind == "unsub" {
					uns++
				}
			}
		}
		c.Note(uns > 0 && sends > 1, "%v", p)
		c.Bubble(func(b *vh.B) {
			sub, send := mk()
			run(b, p, sub, send)
		})
	})
}

func TestFeed(t *testing.T) {
	check(t, func() (func(chan int) event.Subscription, func(int) int) {
		f := new(event.Feed)
		return func(c chan int) event.Subscription { return f.Subscribe(c) }, func(v int) int { return f.Send(v) }
	})
}

func TestFeedOf(t *testing.T) {
	check(t, func() (func(chan int) event.Subscription, func(int) int) {
		f := new(event.FeedOf[int])
		return func(c chan int) event.Subscription { return f.Subscribe(c) }, f.Send
	})
}

// TestSelfUnsubscribe: receivers that leave from within their receive loop,
// while others do the same, must neither block the sender nor each other.
func selfCheck(t *testing.T, mk func() (func(chan int) event.Subscription, func(int) int)) {
	vh.Run(t, vh.Opt{N: 3000, Rule: "a sender and up to 12 receivers which each leave after a chosen number of values; non-trivial: more than one receiver leaves early"}, func(c *vh.C) {
		n := rapid.IntRange(1, 6).Draw(c.T, "sends")
		type rcv struct{ Cap, Leave, Delay int }
		var rs []rcv
		early := 0
		for i := rapid.IntRange(1, 12).Draw(c.T, "receivers"); i > 0; i-- {
			r := rcv{rapid.IntRange(0, 2).Draw(c.T, "cap"), rapid.IntRange(0, n).Draw(c.T, "leave"), rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(c.T, "delay")}
			if r.Leave < n {
				early++
			}
			rs = append(rs, r)
		}
		c.Note(early > 1, "%d %v", n, rs)
		c.Bubble(func(b *vh.B) {
			sub, send := mk()
			var wg sync.WaitGroup
			for i, r := range rs {
				ch := make(chan int, r.Cap)
				s := sub(ch)
				wg.Add(1)
				b.Go(func() {
					defer wg.Done()
					for k := 0; k < r.Leave; k++ {
						if v := <-ch; v != k {
							b.Errorf("receiver %d got %d, want %d", i, v, k)
						}
						time.Sleep(time.Duration(r.Delay))
					}
					t0 := time.Now()
					s.Unsubscribe()
					if time.Since(t0) != 0 {
						b.Errorf("receiver %d: Unsubscribe waited", i)
					}
				})
			}
			for k := 0; k < n; k++ {
				got := send(k)
				max, min := 0, 0
				for _, r := range rs {
					if r.Leave > k {
						min++
					}
					if r.Leave+r.Cap >= k || r.Leave == k { // a buffer may have taken it
						max++
					}
				}
				if got < min || got > max {
					b.Errorf("send %d = %d, want between %d and %d", k, got, min, max)
				}
			}
			wg.Wait()
			if got := send(n); got != 0 {
				b.Errorf("Send = %d after everybody left", got)
			}
		})
	})
}

func TestFeedSelf(t *testing.T) {
	selfCheck(t, func() (func(chan int) event.Subscription, func(int) int) {
		f := new(event.Feed)
		return func(c chan int) event.Subscription { return f.Subscribe(c) }, func(v int) int { return f.Send(v) }
	})
}

func TestFeedOfSelf(t *testing.T) {
	selfCheck(t, func() (func(chan int) event.Subscription, func(int) int) {
		f := new(event.FeedOf[int])
		return func(c chan int) event.Subscription { return f.Subscribe(c) }, f.Send
	})
}
