// Package c24 checks property C24: trees of log handlers.
package c24

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"flychain/log"
	"flychain/rlp/zzverif/vh"

	"github.com/go-stack/stack"
	"pgregory.net/rapid"
)

// lazy is a lazy value with the number of its evaluations.
type lazy struct {
	fn    any
	calls *int
	want  any // the evaluated value
	bad   bool
	trace *stack.CallStack // what fn returned
}

// rec is a generated record.
type rec struct {
	lvl   log.Lvl
	msg   string
	ctx   []any
	lazy  map[int]lazy // by value index
	names log.RecordKeyNames
	time  time.Time // set: the record is handed to the tree directly
}

var stdNames = log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}

var times = []time.Time{time.Unix(5, 0).UTC(), time.Unix(1e9, 7).UTC()}

// add is a documented addition on the way to a leaf.
type add struct {
	key   string
	check func(v any, r *log.Record) bool
}

// delivery is one arrival at a leaf.
type delivery struct {
	leaf      int
	adds      []add
	evaluated bool
}

// sim walks one record through the model.
type sim struct {
	r     *rec
	out   []delivery
	evals int // lazy handlers reached that are not below another one
}

type tree interface {
	build(h *hist) log.Handler
	run(s *sim, adds []add, lazyAbove bool) error
	String() string
}

// hist receives what leaves see.
type hist struct {
	got []arrival
}

type arrival struct {
	leaf int
	r    log.Record
	ctx  []any
}

type leaf struct {
	id     int
	script []bool // true: the n-th record fails
	n, m   int    // calls: real, model
	errs   error
}

func (l *leaf) String() string { return fmt.Sprintf("leaf%d%v", l.id, l.script) }

func (l *leaf) build(h *hist) log.Handler {
	return log.FuncHandler(func(r *log.Record) error {
		h.got = append(h.got, arrival{l.id, *r, append([]any{}, r.Ctx...)})
		f := l.n < len(l.script) && l.script[l.n]
		l.n++
		if f {
			return l.errs
		}
		return nil
	})
}

func (l *leaf) run(s *sim, adds []add, lz bool) error {
	s.out = append(s.out, delivery{l.id, append([]add{}, adds...), lz})
	f := l.m < len(l.script) && l.script[l.m]
	l.m++
	if f {
		return l.errs
	}
	return nil
}

type wrap struct {
	kind string
	sub  tree
	lvl  log.Lvl
	key  string
	val  any
	fmt  string
}

func (w *wrap) String() string {
	switch w.kind {
	case "lvl":
		return fmt.Sprintf("lvl<=%d(%v)", w.lvl, w.sub)
	case "match":
		return fmt.Sprintf("match %q=%v(%v)", w.key, w.val, w.sub)
	}
	return fmt.Sprintf("%s(%v)", w.kind, w.sub)
}

func (w *wrap) build(h *hist) log.Handler {
	sub := w.sub.build(h)
	switch w.kind {
	case "lvl":
		return log.LvlFilterHandler(w.lvl, sub)
	case "filter":
		return log.FilterHandler(func(r *log.Record) bool { return len(r.Msg)%2 == 0 }, sub)
	case "match":
		return log.MatchFilterHandler(w.key, w.val, sub)
	case "lazy":
		return log.LazyHandler(sub)
	case "sync":
		return log.SyncHandler(sub)
	case "file":
		return log.CallerFileHandler(sub)
	case "func":
		return log.CallerFuncHandler(sub)
	case "stack":
		return log.CallerStackHandler(w.fmt, sub)
	}
	panic(w.kind)
}

func (w *wrap) run(s *sim, adds []add, lz bool) error {
	switch w.kind {
	case "lvl":
		if s.r.lvl > w.lvl {
			return nil
		}
	case "filter":
		if len(s.r.msg)%2 != 0 {
			return nil
		}
	case "match":
		if !matchModel(s.r, w.key, w.val) {
			return nil
		}
	case "lazy":
		if !lz {
			s.evals++
		}
		lz = true
		bad := false
		for _, l := range s.r.lazy {
			bad = bad || l.bad
		}
		_ = bad // the marker is checked once per record
	case "file":
		adds = append(adds, add{"caller", func(v any, r *log.Record) bool { return v == fmt.Sprint(r.Call) }})
	case "func":
		adds = append(adds, add{"fn", func(v any, r *log.Record) bool { return v == fmt.Sprintf("%+n", r.Call) }})
	case "stack":
		f := w.fmt
		adds = append(adds, add{"stack", func(v any, r *log.Record) bool {
			s, ok := v.(string)
			return ok && strings.HasPrefix(s, "["+fmt.Sprintf(f, r.Call)) && strings.HasSuffix(s, "]")
		}})
	}
	return w.sub.run(s, adds, lz)
}

func matchModel(r *rec, key string, val any) bool {
	switch key {
	case r.names.Lvl:
		return any(r.lvl) == val
	case r.names.Time:
		return any(r.time) == val
	case r.names.Msg:
		return any(r.msg) == val
	}
	for i := 0; i < len(r.ctx); i += 2 {
		if r.ctx[i] == any(key) {
			return r.ctx[i+1] == val
		}
	}
	return false
}

type many struct {
	kind string
	subs []tree
}

func (m *many) String() string {
	var p []string
	for _, s := range m.subs {
		p = append(p, s.String())
	}
	return m.kind + "(" + strings.Join(p, ", ") + ")"
}

func (m *many) build(h *hist) log.Handler {
	var hs []log.Handler
	for _, s := range m.subs {
		hs = append(hs, s.build(h))
	}
	if m.kind == "multi" {
		return log.MultiHandler(hs...)
	}
	return log.FailoverHandler(hs...)
}

func (m *many) run(s *sim, adds []add, lz bool) error {
	var err error
	for i, sub := range m.subs {
		err = sub.run(s, append([]add{}, adds...), lz)
		if m.kind == "multi" {
			err = nil
			continue
		}
		if err == nil {
			return nil
		}
		e := err
		adds = append(adds, add{fmt.Sprintf("failover_err_%d", i), func(v any, r *log.Record) bool { return v == any(e) }})
	}
	return err
}

type discard struct{}

func (discard) String() string              { return "discard" }
func (discard) build(*hist) log.Handler     { return log.DiscardHandler() }
func (discard) run(*sim, []add, bool) error { return nil }

var keyNames = []string{"a", "b", "lvl", "msg", "t", "c d", "e=f"}

func genVal(t *rapid.T) any {
	switch rapid.IntRange(0, 4).Draw(t, "vk") {
	case 0:
		return rapid.IntRange(0, 2).Draw(t, "int")
	case 1:
		return rapid.SampledFrom([]string{"x", "y", "", "a", "b"}).Draw(t, "str")
	case 2:
		return nil
	case 3:
		return log.LvlWarn
	default:
		return []int{1}
	}
}

func genTree(t *rapid.T, depth int, leaves *[]*leaf) tree {
	k := rapid.IntRange(0, 15).Draw(t, "node")
	if depth == 0 || k < 3 && len(*leaves) > 0 {
		if k == 15 {
			return discard{}
		}
		l := &leaf{id: len(*leaves), script: rapid.SliceOfN(rapid.Bool(), 0, 5).Draw(t, "script")}
		l.errs = fmt.Errorf("leaf %d", l.id)
		*leaves = append(*leaves, l)
		return l
	}
	switch k {
	case 3, 4, 5, 6, 7:
		m := &many{kind: "multi"}
		if k < 6 {
			m.kind = "failover"
			if rapid.IntRange(0, 2).Draw(t, "flat") == 0 { // a row of leaves that mostly fail
				for i := rapid.IntRange(2, 6).Draw(t, "row"); i > 0; i-- {
					l := &leaf{id: len(*leaves)}
					for j := 0; j < 4; j++ {
						l.script = append(l.script, rapid.IntRange(0, 3).Draw(t, "fails") > 0)
					}
					l.errs = fmt.Errorf("leaf %d", l.id)
					*leaves = append(*leaves, l)
					m.subs = append(m.subs, l)
				}
				return m
			}
		}
		for i := rapid.IntRange(0, 5).Draw(t, "fan"); i > 0; i-- {
			m.subs = append(m.subs, genTree(t, depth-1, leaves))
		}
		return m
	case 8:
		return &wrap{kind: "lvl", lvl: log.Lvl(rapid.IntRange(-1, 6).Draw(t, "max")), sub: genTree(t, depth-1, leaves)}
	case 9, 10:
		w := &wrap{kind: "match", key: rapid.SampledFrom(keyNames).Draw(t, "key")}
		switch w.key {
		case "lvl":
			w.val = log.Lvl(rapid.IntRange(1, 5).Draw(t, "l"))
			if rapid.IntRange(0, 4).Draw(t, "untyped") == 0 {
				w.val = int(w.val.(log.Lvl))
			}
		case "msg":
			w.val = rapid.SampledFrom([]string{"x", "yy", ""}).Draw(t, "m")
		case "t":
			w.val = times[rapid.IntRange(0, 1).Draw(t, "time")]
			if rapid.IntRange(0, 3).Draw(t, "notime") == 0 {
				w.val = 5
			}
		default:
			for w.val = genVal(t); !reflect.ValueOf(w.val).IsValid() || !reflect.TypeOf(w.val).Comparable(); w.val = genVal(t) {
				if w.val == nil {
					break
				}
			}
		}
		w.sub = genTree(t, depth-1, leaves)
		return w
	case 11:
		return &wrap{kind: "filter", sub: genTree(t, depth-1, leaves)}
	case 12:
		return &wrap{kind: "sync", sub: genTree(t, depth-1, leaves)}
	case 13:
		return &wrap{kind: rapid.SampledFrom([]string{"file", "func", "stack"}).Draw(t, "caller"), fmt: rapid.SampledFrom([]string{"%v", "%+v", "%s"}).Draw(t, "fmt"), sub: genTree(t, depth-1, leaves)}
	default:
		return &wrap{kind: "lazy", sub: genTree(t, depth-1, leaves)}
	}
}

var errLazy = errors.New("an error value")

func genLazy(t *rapid.T) lazy {
	n := new(int)
	l := lazy{calls: n}
	switch rapid.IntRange(0, 10).Draw(t, "lazy") {
	case 0:
		l.fn, l.want = func() int { *n++; return 7 }, 7
	case 1:
		l.fn, l.want = func() string { *n++; return "s" }, "s"
	case 2:
		l.fn, l.want = func() (int, string) { *n++; return 1, "two" }, []any{1, "two"}
	case 3:
		l.fn, l.want = func() error { *n++; return errLazy }, errLazy
	case 4:
		l.fn, l.want = func() any { *n++; return nil }, nil
	case 5:
		l.fn, l.bad = "not a function", true
	case 6:
		l.fn, l.bad = func(int) int { *n++; return 1 }, true
	case 7:
		l.fn, l.bad = func() { *n++ }, true
	case 8:
		l.fn, l.bad = nil, true
	case 9: // what is not above the call is cut off
		cs := new(stack.CallStack)
		l.fn, l.trace = func() stack.CallStack { *n++; *cs = stack.Trace(); return *cs }, cs
	default:
		l.fn, l.bad = (func() int)(nil), true
	}
	return l
}

func genRec(t *rapid.T) *rec {
	r := &rec{lvl: log.Lvl(rapid.IntRange(1, 5).Draw(t, "lvl")), msg: rapid.SampledFrom([]string{"x", "yy", "", "zzz"}).Draw(t, "msg"), lazy: map[int]lazy{}, names: stdNames}
	if rapid.IntRange(0, 2).Draw(t, "direct") == 0 {
		r.time = rapid.SampledFrom(times).Draw(t, "at")
		r.names = rapid.SampledFrom([]log.RecordKeyNames{stdNames, {Time: "a", Lvl: "b", Msg: "c d", Ctx: "e=f"}, {Time: "msg", Lvl: "t", Msg: "lvl", Ctx: "a"}}).Draw(t, "names")
	}
	for i := rapid.IntRange(0, 4).Draw(t, "pairs"); i > 0; i-- {
		if rapid.IntRange(0, 3).Draw(t, "lz") == 0 {
			l := genLazy(t)
			r.lazy[len(r.ctx)+1] = l
			r.ctx = append(r.ctx, fmt.Sprintf("lazy%d", i), log.Lazy{Fn: l.fn})
			continue
		}
		var k any = rapid.SampledFrom(keyNames).Draw(t, "key")
		if rapid.IntRange(0, 9).Draw(t, "oddkey") == 0 {
			k = 5
		}
		r.ctx = append(r.ctx, k, genVal(t))
	}
	return r
}

func equalVal(a, b any) bool { return reflect.DeepEqual(a, b) }

// sameRaw compares a value that must be unchanged.
func sameRaw(a, b any) bool {
	la, ok := a.(log.Lazy)
	if !ok {
		return equalVal(a, b)
	}
	lb, ok := b.(log.Lazy)
	if !ok {
		return false
	}
	va, vb := reflect.ValueOf(la.Fn), reflect.ValueOf(lb.Fn)
	if va.IsValid() && vb.IsValid() && va.Kind() == reflect.Func && vb.Kind() == reflect.Func {
		return va.Pointer() == vb.Pointer()
	}
	return equalVal(la.Fn, lb.Fn)
}

func checkArrival(r *rec, d delivery, a arrival) error {
	if a.r.Msg != r.msg || a.r.Lvl != r.lvl {
		return fmt.Errorf("record became %v %q", a.r.Lvl, a.r.Msg)
	}
	if a.r.KeyNames != r.names {
		return fmt.Errorf("key names became %+v", a.r.KeyNames)
	}
	if !r.time.IsZero() && a.r.Time != r.time {
		return fmt.Errorf("time became %v, want %v", a.r.Time, r.time)
	}
	if f := a.r.Call.Frame().Function; !strings.Contains(f, "c24.TestTrees") {
		return fmt.Errorf("call site became %q", f)
	}
	if len(a.ctx) < len(r.ctx) || len(a.ctx)%2 != 0 {
		return fmt.Errorf("context is %v", a.ctx)
	}
	bad := false
	for i, w := range r.ctx {
		g := a.ctx[i]
		if l, ok := r.lazy[i]; ok {
			if !d.evaluated && sameRaw(w, g) {
				continue // not evaluated yet
			}
			if l.bad {
				bad = true
				if _, ok := g.(error); !ok {
					return fmt.Errorf("invalid lazy value %d is %#v", i, g)
				}
				continue
			}
			if l.trace != nil {
				got, ok := g.(stack.CallStack)
				if want := l.trace.TrimBelow(a.r.Call).TrimRuntime(); !ok || fmt.Sprintf("%+v", got) != fmt.Sprintf("%+v", want) {
					return fmt.Errorf("lazy stack %d is %+v, want %+v", i, g, want)
				}
				continue
			}
			if !equalVal(g, l.want) {
				return fmt.Errorf("lazy value %d is %#v, want %#v", i, g, l.want)
			}
			continue
		}
		if !sameRaw(w, g) {
			return fmt.Errorf("context %d is %#v, want %#v", i, g, w)
		}
	}
	rest := a.ctx[len(r.ctx):]
	k := 0
	marker := false
	for i := 0; i < len(rest); i += 2 {
		key, _ := rest[i].(string)
		switch {
		case k < len(d.adds) && key == d.adds[k].key && d.adds[k].check(rest[i+1], &a.r):
			k++
		case key == "LOG15_ERROR":
			marker = true
		case key == "caller" || key == "fn" || key == "stack" || strings.HasPrefix(key, "failover_err_"):
			// added on the way to an earlier leaf of the same record
		default:
			return fmt.Errorf("undocumented addition %#v=%#v", rest[i], rest[i+1])
		}
	}
	if k < len(d.adds) {
		return fmt.Errorf("addition %q is missing in %v", d.adds[k].key, rest)
	}
	if marker != bad && (d.evaluated || marker) {
		return fmt.Errorf("error marker %v with invalid lazy values %v: %v", marker, bad, rest)
	}
	return nil
}

// hand logs r with its caller as the call site, as loggers do.
//
//go:noinline
func hand(h log.Handler, r *log.Record) error {
	r.Call = stack.Caller(1)
	return h.Log(r)
}

func TestTrees(t *testing.T) {
	vh.Run(t, vh.Opt{N: 50000, Rule: "random handler trees (level, predicate and match filters, fan-out, failover, lazy, sync, caller, function, stack, discard; leaves that fail by a script) and 1-4 records with lazy values, logged for real or handed to the tree with other key names; non-trivial: at least two leaves"}, func(c *vh.C) {
		var leaves []*leaf
		tr := genTree(c.T, rapid.IntRange(1, 5).Draw(c.T, "depth"), &leaves)
		n := rapid.IntRange(1, 4).Draw(c.T, "n")
		c.Note(len(leaves) > 1, "%d records: %v", n, tr)
		c.Class("leaves %d", min(len(leaves), 6))
		h := &hist{}
		real := tr.build(h)
		var rerr error
		l := log.New()
		l.SetHandler(log.FuncHandler(func(r *log.Record) error { rerr = real.Log(r); return rerr }))
		for i := 0; i < n; i++ {
			r := genRec(c.T)
			s := &sim{r: r}
			werr := tr.run(s, nil, false)
			h.got = nil
			args := append([]any{}, r.ctx...)
			p := vh.Caught(func() {
				if !r.time.IsZero() {
					spare := append(make([]any, 0, len(args)+rapid.IntRange(0, 6).Draw(c.T, "spare")), args...)
					rerr = hand(real, &log.Record{Time: r.time, Lvl: r.lvl, Msg: r.msg, Ctx: spare, KeyNames: r.names})
					return
				}
				switch r.lvl {
				case log.LvlError:
					l.Error(r.msg, args...)
				case log.LvlWarn:
					l.Warn(r.msg, args...)
				case log.LvlInfo:
					l.Info(r.msg, args...)
				case log.LvlDebug:
					l.Debug(r.msg, args...)
				default:
					l.Trace(r.msg, args...)
				}
			})
			if p != nil {
				c.Fatalf("panic: %v; record %v", p, r.ctx)
			}
			if rerr != werr {
				c.Fatalf("record %d: returned %v, want %v", i, rerr, werr)
			}
			var gl, wl []int
			for _, g := range h.got {
				gl = append(gl, g.leaf)
			}
			for _, d := range s.out {
				wl = append(wl, d.leaf)
			}
			if !reflect.DeepEqual(gl, wl) {
				c.Fatalf("record %d (%v %q %v) reached leaves %v, want %v", i, r.lvl, r.msg, r.ctx, gl, wl)
			}
			for j, d := range s.out {
				if err := checkArrival(r, d, h.got[j]); err != nil {
					c.Fatalf("record %d at leaf %d: %v (got %v)", i, d.leaf, err, h.got[j].ctx)
				}
			}
			for _, lz := range r.lazy {
				switch {
				case lz.bad && *lz.calls != 0:
					c.Fatalf("invalid lazy function was called")
				case !lz.bad && s.evals == 0 && *lz.calls != 0:
					c.Fatalf("lazy function called without a lazy handler")
				case !lz.bad && s.evals > 0 && (*lz.calls < 1 || *lz.calls > s.evals):
					c.Fatalf("lazy function called %d times by %d lazy handlers", *lz.calls, s.evals)
				}
			}
		}
	})
}

// TestDetached hands over records whose call site is not on the stack any more.
func TestDetached(t *testing.T) {
	vh.Run(t, vh.Opt{N: 300, Rule: "records whose call has returned, or is that of another goroutine, handed to the handlers that add call site, function and stack; non-trivial: all"}, func(c *vh.C) {
		format := rapid.SampledFrom([]string{"%v", "%+v", "%s"}).Draw(c.T, "fmt")
		n := rapid.IntRange(0, 2).Draw(c.T, "pairs")
		apart := rapid.Bool().Draw(c.T, "goroutine")
		c.Note(true, "%s %d pairs, other goroutine %v", format, n, apart)
		site := elsewhere()
		r := &log.Record{Time: time.Now(), Lvl: log.LvlInfo, Msg: "m", Call: site}
		want := []any{}
		for i := 0; i < n; i++ {
			r.Ctx = append(r.Ctx, "k", i)
			want = append(want, "k", i)
		}
		var got []*log.Record
		h := log.CallerStackHandler(format, log.FuncHandler(func(r *log.Record) error { got = append(got, r); return nil }))
		if apart {
			done := make(chan struct{})
			go func() { defer close(done); h.Log(r) }()
			<-done
		} else {
			h.Log(r)
		}
		if len(got) != 1 || len(got[0].Ctx) != len(want) {
			c.Fatalf("got %+v, want the context %v", got, want)
		}
		for i := range want {
			if got[0].Ctx[i] != want[i] {
				c.Fatalf("got the context %v, want %v", got[0].Ctx, want)
			}
		}
	})
}

func elsewhere() stack.Call { return stack.Caller(0) }
