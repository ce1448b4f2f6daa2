// Package c12 checks property C12: the type mux.
package c12

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"flychain/event"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

type rec struct{ N int }
type other struct{ N int }
type named int
type perr struct{ n int }

func (p perr) Error() string { return "p" }

const ntypes = 7

// mk makes an event of type k carrying id n; id is its inverse.
func mk(k, n int) any {
	switch k {
	case 0:
		return n
	case 1:
		return named(n)
	case 2:
		return rec{n}
	case 3:
		return &rec{n}
	case 4:
		return other{n}
	case 5:
		return strconv.Itoa(n)
	}
	return perr{n}
}

func id(v any) (k, n int) {
	switch v := v.(type) {
	case int:
		return 0, v
	case named:
		return 1, int(v)
	case rec:
		return 2, v.N
	case *rec:
		return 3, v.N
	case other:
		return 4, v.N
	case string:
		n, _ := strconv.Atoi(v)
		return 5, n
	case perr:
		return 6, v.n
	}
	return -1, -1
}

type subSpec struct {
	At     int // when it subscribes; -1: before everything
	Types  []int
	Delays []int // pauses between receives
	Leave  int   // leaves from its receive loop after so many events (-1: never)
	LeftAt int   // somebody else unsubscribes it then (-1: never)
	Twice  bool
}

type postSpec struct{ Sleep, Type int }

type program struct {
	Subs    []subSpec
	Posters [][]postSpec
	Stop    int // -1: at the end
	Unit    time.Duration
	Stops   int
}

func gen(t *rapid.T) program {
	var p program
	sl := func(l string) int { return rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 4}).Draw(t, l) }
	np := rapid.IntRange(1, 3).Draw(t, "posters")
	nt := rapid.IntRange(1, ntypes).Draw(t, "types")
	base := rapid.IntRange(0, ntypes-1).Draw(t, "base")
	typ := func(l string) int { return (base + rapid.IntRange(0, nt-1).Draw(t, l)) % ntypes }
	for ; np > 0; np-- {
		var ps []postSpec
		for k := rapid.IntRange(1, 5).Draw(t, "posts"); k > 0; k-- {
			ps = append(ps, postSpec{sl("ps"), typ("pt")})
		}
		p.Posters = append(p.Posters, ps)
	}
	for i := rapid.IntRange(1, 5).Draw(t, "subs"); i > 0; i-- {
		s := subSpec{At: rapid.SampledFrom([]int{-1, -1, -1, 0, 1, 3}).Draw(t, "at"), Leave: -1, LeftAt: -1, Twice: rapid.Bool().Draw(t, "twice")}
		seen := map[int]bool{}
		for k := rapid.IntRange(1, 4).Draw(t, "nt"); k > 0; k-- {
			if x := typ("st"); !seen[x] {
				seen[x] = true
				s.Types = append(s.Types, x)
			}
		}
		for k := rapid.IntRange(1, 3).Draw(t, "nd"); k > 0; k-- {
			s.Delays = append(s.Delays, sl("delay"))
		}
		switch rapid.IntRange(0, 3).Draw(t, "leaves") {
		case 0:
			s.Leave = rapid.IntRange(0, 4).Draw(t, "leave")
		case 1:
			s.LeftAt = rapid.IntRange(0, 5).Draw(t, "leftat")
		}
		p.Subs = append(p.Subs, s)
	}
	p.Stop = -1
	if rapid.IntRange(0, 2).Draw(t, "stops") == 0 {
		p.Stop = rapid.IntRange(0, 6).Draw(t, "stop")
	}
	p.Unit = rapid.SampledFrom([]time.Duration{1, 1, time.Second, time.Hour}).Draw(t, "unit")
	p.Stops = rapid.IntRange(1, 3).Draw(t, "nstops")
	return p
}

const inf = int64(1) << 60

type got struct {
	n     int
	at    time.Time
	stamp time.Time // the event's own time
}

type subRec struct {
	mu     sync.Mutex
	spec   subSpec
	sub    *event.TypeMuxSubscription
	s0, s1 int64
	u0, u1 int64
	got    []got
}

type postRec struct {
	typ, n int
	t0, t1 int64
	began  time.Time
	at     time.Time // return time
	err    error
}

func run(b *vh.B, p program) {
	var clock atomic.Int64
	tick := func() int64 { return clock.Add(1) }
	quick := func(what string, f func()) {
		t0 := time.Now()
		f()
		if d := time.Since(t0); d != 0 {
			b.Errorf("%s waited %v", what, d)
		}
	}
	mux := new(event.TypeMux)
	var (
		wg       sync.WaitGroup
		postWG   sync.WaitGroup
		mu       sync.Mutex
		posts    []postRec
		made     []*event.TypeMuxSubscription
		leaving  = map[*event.TypeMuxSubscription]bool{}
		st0, st1 = inf, inf
		stopping atomic.Bool
	)
	subs := make([]*subRec, len(p.Subs))
	unsub := func(r *subRec, sub *event.TypeMuxSubscription) {
		mu.Lock()
		leaving[sub] = true
		mu.Unlock()
		a := tick()
		quick("Unsubscribe", sub.Unsubscribe)
		z := tick()
		r.mu.Lock()
		r.u0, r.u1 = min(r.u0, a), min(r.u1, z)
		r.mu.Unlock()
		if !sub.Closed() {
			b.Errorf("Closed() is false after Unsubscribe")
		}
		select {
		case ev, ok := <-sub.Chan():
			if ok {
				b.Errorf("event %v after Unsubscribe", ev.Data)
			}
		default:
			b.Errorf("channel not closed after Unsubscribe")
		}
	}
	subscribe := func(r *subRec) {
		var ts []any
		for _, k := range r.spec.Types {
			ts = append(ts, mk(k, -5))
		}
		s0 := tick()
		quick("Subscribe", func() { r.sub = mux.Subscribe(ts...) })
		r.s1 = tick()
		r.s0 = s0
		sub := r.sub
		mu.Lock()
		made = append(made, sub)
		mu.Unlock()
		if stopping.Load() == false && sub.Closed() && !stopping.Load() {
			b.Errorf("a new subscription reports itself closed")
		}
		wg.Add(1)
		b.Go(func() {
			defer wg.Done()
			for k := 0; ; k++ {
				if r.spec.Leave == k {
					unsub(r, sub)
					if r.spec.Twice {
						unsub(r, sub)
					}
					return
				}
				ev, ok := <-sub.Chan()
				if !ok {
					if !sub.Closed() {
						b.Errorf("the channel is closed but Closed() is false")
					}
					return
				}
				_, n := id(ev.Data)
				now := time.Now()
				if ev.Time.After(now) {
					b.Errorf("event time %v is in the future (now %v)", ev.Time, now)
				}
				r.mu.Lock()
				r.got = append(r.got, got{n, now, ev.Time})
				r.mu.Unlock()
				time.Sleep(time.Duration(r.spec.Delays[k%len(r.spec.Delays)]) * p.Unit)
			}
		})
		if r.spec.LeftAt >= 0 {
			wg.Add(1)
			b.Go(func() {
				defer wg.Done()
				time.Sleep(time.Duration(r.spec.LeftAt) * p.Unit)
				unsub(r, sub)
				if r.spec.Twice {
					unsub(r, sub)
				}
			})
		}
	}
	for i, s := range p.Subs {
		subs[i] = &subRec{spec: s, u0: inf, u1: inf, s0: inf, s1: inf}
		if s.At < 0 {
			subscribe(subs[i])
		}
	}
	for _, r := range subs {
		if r.spec.At >= 0 {
			wg.Add(1)
			b.Go(func() {
				defer wg.Done()
				time.Sleep(time.Duration(r.spec.At) * p.Unit)
				subscribe(r)
			})
		}
	}
	for pi, ps := range p.Posters {
		postWG.Add(1)
		b.Go(func() {
			defer postWG.Done()
			for k, q := range ps {
				time.Sleep(time.Duration(q.Sleep) * p.Unit)
				r := postRec{typ: q.Type, n: pi*100 + k}
				r.began = time.Now()
				r.t0 = tick()
				r.err = mux.Post(mk(q.Type, r.n))
				r.t1 = tick()
				r.at = time.Now()
				mu.Lock()
				posts = append(posts, r)
				mu.Unlock()
			}
		})
	}
	stop := func() {
		stopping.Store(true)
		mu.Lock()
		before := append([]*event.TypeMuxSubscription{}, made...)
		mu.Unlock()
		a := tick()
		quick("Stop", mux.Stop)
		z := tick()
		for _, sub := range before {
			mu.Lock()
			skip := leaving[sub] // the one that unsubscribes it closes it
			mu.Unlock()
			if skip {
				continue
			}
			if !sub.Closed() {
				b.Errorf("Closed() is false after Stop")
			}
			select {
			case ev, ok := <-sub.Chan():
				if ok {
					b.Errorf("event %v after Stop", ev.Data)
				}
			default:
				b.Errorf("channel not closed after Stop")
			}
		}
		mu.Lock()
		st0, st1 = min(st0, a), min(st1, z)
		mu.Unlock()
	}
	if p.Stop >= 0 {
		for i := 0; i < p.Stops; i++ {
			wg.Add(1)
			b.Go(func() { defer wg.Done(); time.Sleep(time.Duration(p.Stop) * p.Unit); stop() })
		}
	}
	fin := make(chan bool)
	go func() { postWG.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(time.Minute + 1000*p.Unit):
		b.Errorf("Post is blocked although every subscriber receives or left")
	}
	time.Sleep(20 * p.Unit)
	stop()
	wg.Wait()
	if err := mux.Post(mk(0, 1)); !errors.Is(err, event.ErrMuxClosed) {
		b.Errorf("Post after Stop: %v", err)
	}
	late := mux.Subscribe(mk(0, 1), mk(1, 1))
	if !late.Closed() {
		b.Errorf("a subscription of a stopped mux reports itself open")
	}
	select {
	case _, ok := <-late.Chan():
		if ok {
			b.Errorf("event on a subscription of a stopped mux")
		}
	default:
		b.Errorf("the channel of a subscription of a stopped mux is open")
	}
	late.Unsubscribe()
	synctest.Wait()

	sort.Slice(posts, func(i, j int) bool { return posts[i].t0 < posts[j].t0 })
	for _, q := range posts {
		switch {
		case st1 < q.t0:
			if !errors.Is(q.err, event.ErrMuxClosed) {
				b.Errorf("Post after Stop: %v", q.err)
			}
		case q.t1 < st0:
			if q.err != nil {
				b.Errorf("Post before Stop: %v", q.err)
			}
		default:
			if q.err != nil && !errors.Is(q.err, event.ErrMuxClosed) {
				b.Errorf("Post: %v", q.err)
			}
		}
	}
	for i, r := range subs {
		if r.s0 == inf {
			continue
		}
		u0, u1 := min(r.u0, st0), min(r.u1, st1)
		pos := map[int]int{}
		for k, g := range r.got {
			if _, dup := pos[g.n]; dup {
				b.Errorf("subscription %d received event %d twice", i, g.n)
			}
			pos[g.n] = k
		}
		for qi, q := range posts {
			k, ok := pos[q.n]
			want := false
			for _, t := range r.spec.Types {
				want = want || t == q.typ
			}
			if ok && !want {
				b.Errorf("subscription %d to %v received event %d of type %d", i, r.spec.Types, q.n, q.typ)
			}
			if ok && (r.s0 > q.t1 || u1 < q.t0 || q.err != nil) {
				b.Errorf("subscription %d received event %d outside its lifetime", i, q.n)
			}
			if !ok && want && r.s1 < q.t0 && u0 > q.t1 {
				b.Errorf("subscription %d to %v missed event %d of type %d", i, r.spec.Types, q.n, q.typ)
			}
			if ok && (r.got[k].stamp.Before(q.began) || r.got[k].stamp.After(q.at)) {
				b.Errorf("event %d, posted from %v to %v, is stamped %v", q.n, q.began, q.at, r.got[k].stamp)
			}
			if ok && r.got[k].at.After(q.at) {
				b.Errorf("Post of %d returned at %v, before subscription %d received it at %v", q.n, q.at, i, r.got[k].at)
			}
			for _, q2 := range posts[qi+1:] {
				if k2, ok2 := pos[q2.n]; ok && ok2 && q.t1 < q2.t0 && k2 < k {
					b.Errorf("subscription %d received %d before %d", i, q2.n, q.n)
				}
			}
			delete(pos, q.n)
		}
		for n := range pos {
			b.Errorf("subscription %d received %d, which nobody posted", i, n)
		}
	}
}

func TestMux(t *testing.T) {
	vh.Run(t, vh.Opt{N: 8000, Rule: "programs of 1-3 posters, 1-5 subscriptions over up to 7 event types with pauses, leaving from the receive loop or by another goroutine, and up to three concurrent stops, on real threads in a fake-time bubble under the race detector; non-trivial: somebody leaves or stops"}, func(c *vh.C) {
		p := gen(c.T)
		leaves := p.Stop >= 0
		for _, s := range p.Subs {
			leaves = leaves || s.Leave >= 0 || s.LeftAt >= 0
		}
		c.Note(leaves, "%+v", p)
		c.Bubble(func(b *vh.B) { run(b, p) })
	})
}

func TestDuplicate(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1000, Rule: "subscribe calls listing types with and without duplicates; non-trivial: at least two types"}, func(c *vh.C) {
		ks := rapid.SliceOfN(rapid.IntRange(0, ntypes-1), 0, 5).Draw(c.T, "types")
		dup := false
		seen := map[int]bool{}
		var ts []any
		for i, k := range ks {
			dup = dup || seen[k]
			seen[k] = true
			ts = append(ts, mk(k, i))
		}
		c.Note(len(ks) > 1, "%v", ks)
		mux := new(event.TypeMux)
		p := vh.Caught(func() { mux.Subscribe(ts...) })
		if (p != nil) != dup {
			c.Fatalf("Subscribe of types %v: panic %v", ks, p)
		}
		// whatever happened, the mux is not stuck
		fin := make(chan error, 1)
		go func() {
			s := mux.Subscribe(mk(6, 0))
			s.Unsubscribe()
			mux.Stop()
			fin <- mux.Post(mk(0, 0))
		}()
		select {
		case err := <-fin:
			if !errors.Is(err, event.ErrMuxClosed) {
				c.Fatalf("after Subscribe of types %v (panic %v) and Stop, Post = %v", ks, p, err)
			}
		case <-time.After(time.Minute):
			c.Fatalf("after Subscribe of types %v (panic %v) the mux is stuck", ks, p)
		}
		if p != nil && !contains(p, fmt.Sprintf("%T", mk(first(ks), 0))) {
			c.Fatalf("Subscribe of types %v: panic %q does not name the type", ks, p)
		}
	})
}

func first(ks []int) int {
	seen := map[int]bool{}
	for _, k := range ks {
		if seen[k] {
			return k
		}
		seen[k] = true
	}
	return -1
}

func contains(p any, s string) bool {
	t := fmt.Sprint(p)
	for i := 0; i+len(s) <= len(t); i++ {
		if t[i:i+len(s)] == s {
			return true
		}
	}
	return false
}
