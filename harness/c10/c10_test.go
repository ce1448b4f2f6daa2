// Package c10 checks property C10: feeds deliver each value exactly once to
// exactly the current subscribers.
package c10

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
	"testing/synctest"

	"flychain/event"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

// op is one step. During a send the steps in mid run while it is blocked.
type op struct {
	Kind string // sub, unsub, again, send, recv, bad
	Ch   int
	Slot int
	Val  int
	Mid  []op
}

func (o op) String() string {
	switch o.Kind {
	case "sub", "recv":
		return fmt.Sprintf("%s ch%d", o.Kind, o.Ch)
	case "unsub", "again":
		return fmt.Sprintf("%s #%d", o.Kind, o.Slot)
	case "send":
		if len(o.Mid) > 0 {
			return fmt.Sprintf("send %d%v", o.Val, o.Mid)
		}
		return fmt.Sprintf("send %d", o.Val)
	}
	return fmt.Sprintf("%s %d", o.Kind, o.Val)
}

func genOps(t *rapid.T, nch int) []op {
	n := rapid.IntRange(1, 24).Draw(t, "n")
	var ops []op
	for i := 0; i < n; i++ {
		o := op{
			Kind: rapid.SampledFrom([]string{"sub", "sub", "sub", "sub", "unsub", "unsub", "again", "send", "send", "send", "send", "recv", "bad"}).Draw(t, "op"),
			Ch:   rapid.IntRange(0, nch-1).Draw(t, "ch"),
			Slot: rapid.IntRange(0, 15).Draw(t, "slot"),
			Val:  i,
		}
		if o.Kind == "bad" {
			o.Val = rapid.IntRange(0, 10).Draw(t, "bad")
		}
		if o.Kind == "send" {
			for k := rapid.IntRange(-2, 4).Draw(t, "mid"); k > 0; k-- {
				o.Mid = append(o.Mid, op{
					Kind: rapid.SampledFrom([]string{"unsub", "unsub", "unsub", "sub", "recv", "again"}).Draw(t, "mop"),
					Ch:   rapid.IntRange(0, nch-1).Draw(t, "mch"),
					Slot: rapid.IntRange(0, 15).Draw(t, "mslot"),
				})
			}
		}
		ops = append(ops, o)
	}
	return ops
}

// api is a feed of T under test.
type api[T any] struct {
	sub  func(ch chan T, sendOnly bool) event.Subscription
	send func(T) int
	mk   func(int) T
	bad  func(k int) (what string, f func(), typed bool) // nil if there is none
}

type chst[T any] struct {
	ch          chan T
	subs        int // live subscriptions
	exp         []T // what it holds, in order
	outstanding int // copies of the current value not yet taken
	delivered   int
	m           int // subscriptions when the send started
	joined      bool
}

type slot struct {
	sub  event.Subscription
	ch   int
	live bool
}

type world[T any] struct {
	b     *vh.B
	api   api[T]
	chs   []*chst[T]
	slots []*slot
	cur   *T // value being sent
	count int
	trace []string
	stop  bool
	stats *stats
}

type stats struct{ subs, removals, sends, mids int }

func (w *world[T]) fail(format string, args ...any) {
	if !w.stop {
		w.b.Errorf("%s\nafter: %s", fmt.Sprintf(format, args...), strings.Join(w.trace, "; "))
	}
	w.stop = true
}

// fill moves outstanding copies of the current value into free buffer space.
func (w *world[T]) fill() {
	for _, c := range w.chs {
		for c.outstanding > 0 && len(c.exp) < cap(c.ch) {
			c.exp = append(c.exp, *w.cur)
			c.outstanding--
			c.delivered++
			w.count++
		}
	}
}

func (w *world[T]) settle(what string) {
	synctest.Wait()
	w.fill()
	for i, c := range w.chs {
		if len(c.ch) != len(c.exp) {
			w.fail("after %s channel %d holds %d values, want %d", what, i, len(c.ch), len(c.exp))
		}
	}
	for i, s := range w.slots {
		select {
		case err, ok := <-s.sub.Err():
			if s.live {
				w.fail("after %s the error channel of live subscription #%d yields %v,%v", what, i, err, ok)
			} else if ok {
				w.fail("after %s the error channel of ended subscription #%d yields %v", what, i, err)
			}
		default:
			if !s.live {
				w.fail("after %s the error channel of ended subscription #%d is open", what, i)
			}
		}
	}
}

func (w *world[T]) recv(ci int) {
	c := w.chs[ci]
	if len(c.exp) == 0 && c.outstanding > 0 { // unbuffered: handed over directly
		c.exp = append(c.exp, *w.cur)
		c.outstanding--
		c.delivered++
		w.count++
	}
	select {
	case v := <-c.ch:
		if len(c.exp) == 0 {
			w.fail("channel %d delivered %v, nothing expected", ci, v)
			return
		}
		if !reflect.DeepEqual(v, c.exp[0]) {
			w.fail("channel %d delivered %v, want %v", ci, v, c.exp[0])
		}
		c.exp = c.exp[1:]
	default:
		if len(c.exp) > 0 {
			w.fail("channel %d delivers nothing, want %v", ci, c.exp[0])
		}
	}
}

func (w *world[T]) do(o op, mid bool) {
	if w.stop {
		return
	}
	switch o.Kind {
	case "sub":
		c := w.chs[o.Ch]
		w.slots = append(w.slots, &slot{w.api.sub(c.ch, o.Slot%2 == 0), o.Ch, true})
		c.subs++
		c.joined = true
		w.stats.subs++
	case "unsub":
		if len(w.slots) == 0 {
			return
		}
		s := w.slots[o.Slot%len(w.slots)]
		c := w.chs[s.ch]
		if mid && s.live && c.m > 1 && c.outstanding > 0 && c.delivered > 0 {
			return // which of several subscriptions of one channel was served is not defined
		}
		if mid && s.live && c.joined && c.outstanding > 0 {
			return // ditto: one of them joined during the send
		}
		s.sub.Unsubscribe()
		if s.live {
			s.live = false
			c.subs--
			w.stats.removals++
			if mid && c.outstanding > 0 {
				c.outstanding--
			}
		}
	case "again":
		for _, s := range w.slots {
			if !s.live {
				s.sub.Unsubscribe()
			}
		}
	case "recv":
		w.recv(o.Ch)
	case "bad":
		if mid {
			return
		}
		what, f, typed := w.api.bad(o.Val)
		if f == nil {
			return
		}
		p := vh.Caught(f)
		if p == nil {
			w.fail("%s did not panic", what)
		}
		if _, ok := p.(error); !ok && typed {
			w.fail("%s panicked with %v, want a type error", what, p)
		}
	case "send":
		w.send(o)
	}
}

func (w *world[T]) send(o op) {
	v := w.api.mk(o.Val)
	w.cur, w.count = &v, 0
	total := 0
	for _, c := range w.chs {
		c.outstanding, c.delivered, c.m, c.joined = c.subs, 0, c.subs, false
		total += c.subs
	}
	done := make(chan int, 1)
	w.b.Go(func() { done <- w.api.send(v) })
	w.settle("send")
	for _, m := range o.Mid {
		w.trace = append(w.trace, "mid:"+m.String())
		w.do(m, true)
		w.settle("mid " + m.String())
		w.stats.mids++
	}
	for {
		var left []int
		for i, c := range w.chs {
			if c.outstanding > 0 {
				left = append(left, i)
			}
		}
		if len(left) == 0 || w.stop {
			break
		}
		if len(done) > 0 {
			w.fail("Send returned while channels %v still miss the value", left)
			break
		}
		w.recv(left[(o.Val+len(left))%len(left)])
		w.settle("receive")
	}
	if w.stop {
		return
	}
	select {
	case n := <-done:
		if n != w.count {
			w.fail("Send = %d, but %d values were delivered", n, w.count)
		}
	default:
		w.fail("Send does not return although every subscriber took the value")
	}
	w.cur = nil
	w.stats.sends++
}

func run[T any](b *vh.B, mkAPI func() api[T], caps []int, ops []op, st *stats) {
	w := &world[T]{b: b, api: mkAPI(), stats: st}
	for _, c := range caps {
		w.chs = append(w.chs, &chst[T]{ch: make(chan T, c)})
	}
	for _, o := range ops {
		w.trace = append(w.trace, o.String())
		w.do(o, false)
		w.settle(o.Kind)
		if w.stop {
			break
		}
	}
	if !w.stop { // the feed is still fully usable
		w.trace = append(w.trace, "final send")
		w.do(op{Kind: "send", Val: 1000}, false)
		for i, c := range w.chs {
			for n := len(c.exp) + 1; n > 0; n-- {
				w.recv(i)
			}
		}
	}
	for i := 0; w.stop && i < 40; i++ { // release whoever is blocked
		for _, s := range w.slots {
			if s.live {
				b.Go(s.sub.Unsubscribe)
			}
		}
		for _, c := range w.chs {
			for k := 0; k < 20; k++ {
				select {
				case <-c.ch:
				default:
				}
			}
		}
		synctest.Wait()
	}
}

func check[T any](t *testing.T, mkAPI func() api[T]) {
	vh.Run(t, vh.Opt{N: 5000, Rule: "histories of up to 24 subscribe/unsubscribe/send/receive steps over 1-4 channels of capacity 0-3 (duplicates and ill-typed calls included), with further steps while a send is blocked, in a fake-time bubble against a list model; non-trivial: at least two subscriptions, a removal and two sends"}, func(c *vh.C) {
		caps := rapid.SliceOfN(rapid.IntRange(0, 3), 1, 4).Draw(c.T, "caps")
		ops := genOps(c.T, len(caps))
		st := &stats{}
		subs, uns, sends := 0, 0, 0
		for _, o := range ops {
			for _, o := range append([]op{o}, o.Mid...) {
				switch o.Kind {
				case "sub":
					subs++
				case "unsub":
					uns++
				case "send":
					sends++
				}
			}
		}
		c.Note(subs >= 2 && uns > 0 && sends >= 2, "caps %v: %v", caps, ops)
		c.Bubble(func(b *vh.B) { run(b, mkAPI, caps, ops, st) })
		if st.removals > 0 {
			c.Class("with removals")
		}
		if st.mids > 0 {
			c.Class("with steps during a send")
		}
	})
}

type pair struct {
	A int
	B string
}
type myInt int
type myErr struct{ n int }

func (e *myErr) Error() string { return fmt.Sprint("myErr ", e.n) }

func feedAPI[T any](mk func(int) T) func() api[T] {
	return func() api[T] {
		f := new(event.Feed)
		typed := false
		a := api[T]{mk: mk}
		a.sub = func(ch chan T, so bool) event.Subscription {
			typed = true
			if so {
				return f.Subscribe((chan<- T)(ch))
			}
			return f.Subscribe(ch)
		}
		a.send = func(v T) int {
			typed = true
			return f.Send(v)
		}
		a.bad = func(k int) (string, func(), bool) {
			switch k {
			case 0:
				return "Subscribe of a non-channel", func() { f.Subscribe(5) }, true
			case 1:
				return "Subscribe of a receive-only channel", func() { f.Subscribe((<-chan T)(make(chan T))) }, true
			case 2:
				return "Subscribe(nil)", func() { f.Subscribe(nil) }, false
			case 3:
				return "Send(nil)", func() { f.Send(nil) }, false
			}
			if !typed {
				return "", nil, false
			}
			switch k {
			case 4:
				return "Subscribe of a channel of another type", func() { f.Subscribe(make(chan float32)) }, true
			case 5:
				return "Subscribe of an interface channel", func() { f.Subscribe(make(chan interface{}, 3)) }, true
			case 6:
				return "Send of another type", func() { f.Send(float32(1)) }, true
			case 7:
				return "Send of a similar type", func() { f.Send(similar(mk(1))) }, true
			case 8:
				return "Subscribe of a pointer channel", func() { f.Subscribe(make(chan *T, 3)) }, true
			}
			near := similar(mk(1))
			if k == 9 {
				ch := reflect.MakeChan(reflect.ChanOf(reflect.BothDir, reflect.TypeOf(near)), 3)
				return "Subscribe of a channel of a similar type", func() { f.Subscribe(ch.Interface()) }, true
			}
			return "Send of a pointer", func() { v := mk(1); f.Send(&v) }, true
		}
		return a
	}
}

// similar returns a value of another type with the same underlying type: one
// that could be assigned (for types without a name) or converted.
func similar(v any) any {
	switch v := v.(type) {
	case int:
		return myInt(1)
	case myInt:
		return 1
	case pair:
		return struct {
			A int
			B string
		}(v)
	case []int:
		return myInts(v)
	case *myErr:
		return myErrPtr(v)
	}
	return "x"
}

type myInts []int
type myErrPtr *myErr

func feedOfAPI[T any](mk func(int) T) func() api[T] {
	return func() api[T] {
		f := new(event.FeedOf[T])
		return api[T]{
			mk:   mk,
			sub:  func(ch chan T, _ bool) event.Subscription { return f.Subscribe(ch) },
			send: f.Send,
			bad:  func(int) (string, func(), bool) { return "", nil, false },
		}
	}
}

func TestFeedInt(t *testing.T)    { check(t, feedAPI(func(i int) int { return i })) }
func TestFeedMyInt(t *testing.T)  { check(t, feedAPI(func(i int) myInt { return myInt(i) })) }
func TestFeedPair(t *testing.T)   { check(t, feedAPI(func(i int) pair { return pair{i, "v"} })) }
func TestFeedSlice(t *testing.T)  { check(t, feedAPI(func(i int) []int { return []int{i} })) }
func TestFeedErr(t *testing.T)    { check(t, feedAPI(func(i int) *myErr { return &myErr{i} })) }
func TestFeedOfInt(t *testing.T)  { check(t, feedOfAPI(func(i int) int { return i })) }
func TestFeedOfPair(t *testing.T) { check(t, feedOfAPI(func(i int) pair { return pair{i, "v"} })) }
func TestFeedOfAny(t *testing.T) {
	check(t, feedOfAPI(func(i int) any {
		switch i % 3 {
		case 0:
			return nil
		case 1:
			return i
		}
		return pair{i, "any"}
	}))
}
func TestFeedOfError(t *testing.T) {
	check(t, feedOfAPI(func(i int) error {
		if i%3 == 0 {
			return nil
		}
		return &myErr{i}
	}))
}
