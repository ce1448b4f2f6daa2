// Package c23 checks property C23: logger trees.
package c23

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"
	"testing"
	"time"

	"flychain/log"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

// chunk is a run of context values; a map's pairs come in any order.
type chunk struct {
	vals []any
	m    log.Ctx // set: the chunk is these pairs
}

type node struct {
	l      log.Logger
	parent *node
	ctx    []chunk
	own    *sink // set when SetHandler was called on it
	depth  int
}

type sink struct {
	id   int
	recs []*log.Record
}

func (s *sink) Log(r *log.Record) error {
	s.recs = append(s.recs, r)
	return nil
}

func (n *node) sink() *sink {
	for n.own == nil {
		n = n.parent
	}
	return n.own
}

func (n *node) chunks() []chunk {
	if n.parent == nil {
		return nil
	}
	return append(append([]chunk{}, n.parent.chunks()...), n.ctx...)
}

var serial int

func value(t *rapid.T) any {
	serial++
	switch rapid.IntRange(0, 5).Draw(t, "val") {
	case 0:
		return serial
	case 1:
		return nil
	case 2:
		return vh.Str(t, 12, "vs")
	case 3:
		return log.Ctx{"in": 1}
	case 4:
		return []any{serial}
	default:
		return fmt.Sprintf("v%d", serial)
	}
}

// args draws a call's context arguments, in a slice with spare capacity, and
// the chunks they must become.
func args(t *rapid.T) ([]any, []chunk) {
	switch rapid.IntRange(0, 5).Draw(t, "args") {
	case 0: // a map
		m := log.Ctx{}
		for i := rapid.IntRange(0, 4).Draw(t, "map"); i > 0; i-- {
			m[vh.Ident(t, "mk")] = value(t)
		}
		want := log.Ctx{}
		for k, v := range m {
			want[k] = v
		}
		return []any{m}, []chunk{{m: want}}
	case 1: // odd
		n := rapid.SampledFrom([]int{1, 1, 3, 5}).Draw(t, "odd")
		a := slice(t, n)
		if n == 1 {
			a[0] = vh.Ident(t, "k") // a lone map would be expanded
		}
		return a, []chunk{{vals: append(append([]any{}, a...), nil, "LOG15_ERROR", oddText)}}
	default:
		a := slice(t, 2*rapid.IntRange(0, 4).Draw(t, "n"))
		return a, []chunk{{vals: append([]any{}, a...)}}
	}
}

const oddText = "\x00any text"

func slice(t *rapid.T, n int) []any {
	spare := rapid.IntRange(0, 6).Draw(t, "spare")
	a := make([]any, n+spare)
	for i := range a {
		a[i] = "spare"
	}
	for i := 0; i < n; i++ {
		if i%2 == 0 && rapid.IntRange(0, 9).Draw(t, "badkey") > 0 {
			a[i] = vh.Ident(t, "k")
		} else {
			a[i] = value(t)
		}
	}
	return a[:n]
}

func matches(chunks []chunk, got []any) error {
	for _, ch := range chunks {
		if ch.m != nil {
			if len(got) < 2*len(ch.m) {
				return fmt.Errorf("context too short for a map of %d", len(ch.m))
			}
			seen := log.Ctx{}
			for i := 0; i < len(ch.m); i++ {
				k, ok := got[2*i].(string)
				if !ok {
					return fmt.Errorf("map key became %#v", got[2*i])
				}
				seen[k] = got[2*i+1]
			}
			if !reflect.DeepEqual(seen, ch.m) {
				return fmt.Errorf("map %v became %v", ch.m, seen)
			}
			got = got[2*len(ch.m):]
			continue
		}
		if len(got) < len(ch.vals) {
			return fmt.Errorf("context ends early: %v missing", ch.vals[len(got):])
		}
		for i, w := range ch.vals {
			if s, ok := w.(string); ok && s == oddText {
				if t, ok := got[i].(string); !ok || t == "" {
					return fmt.Errorf("no text for the error marker: %#v", got[i])
				}
				continue
			}
			if !reflect.DeepEqual(got[i], w) {
				return fmt.Errorf("context value is %#v, want %#v", got[i], w)
			}
		}
		got = got[len(ch.vals):]
	}
	if len(got) != 0 {
		return fmt.Errorf("extra context %v", got)
	}
	return nil
}

var levels = []log.Lvl{log.LvlError, log.LvlWarn, log.LvlInfo, log.LvlDebug, log.LvlTrace}

func emit(n *node, lvl log.Lvl, how int, msg string, a []any) {
	if n.parent == nil && how%3 != 0 { // the package-level functions
		if how%3 == 1 {
			log.Output(msg, lvl, 0, a...)
			return
		}
		switch lvl {
		case log.LvlError:
			log.Error(msg, a...)
		case log.LvlWarn:
			log.Warn(msg, a...)
		case log.LvlInfo:
			log.Info(msg, a...)
		case log.LvlDebug:
			log.Debug(msg, a...)
		default:
			log.Trace(msg, a...)
		}
		return
	}
	switch lvl {
	case log.LvlError:
		n.l.Error(msg, a...)
	case log.LvlWarn:
		n.l.Warn(msg, a...)
	case log.LvlInfo:
		n.l.Info(msg, a...)
	case log.LvlDebug:
		n.l.Debug(msg, a...)
	default:
		n.l.Trace(msg, a...)
	}
}

func TestTree(t *testing.T) {
	vh.Run(t, vh.Opt{N: 12000, Rule: "histories of 1-30 operations (New with any context, log at any level, set a handler, overwrite a slice passed earlier, extend a received record) on a tree of loggers under the root; non-trivial: at least two loggers and one record"}, func(c *vh.C) {
		var sinks []*sink
		newSink := func() *sink {
			s := &sink{id: len(sinks)}
			sinks = append(sinks, s)
			return s
		}
		root := &node{l: log.Root()}
		root.own = newSink()
		log.Root().SetHandler(root.own)
		nodes := []*node{root}
		var passed [][]any // slices handed to New, with the values they held
		records := 0
		desc := ""
		check := func(n *node, lvl log.Lvl, how int, msg string, a []any, want []chunk) {
			before := append([]any{}, a[:cap(a)]...)
			counts := make([]int, len(sinks))
			for i, s := range sinks {
				counts[i] = len(s.recs)
			}
			t0 := time.Now()
			emit(n, lvl, how, msg, a)
			t1 := time.Now()
			target := n.sink()
			for i, s := range sinks {
				d := 0
				if s == target {
					d = 1
				}
				if len(s.recs) != counts[i]+d {
					c.Fatalf("handler %d got %d records instead of %d (the logger's handler is %d)", i, len(s.recs)-counts[i], d, target.id)
				}
			}
			r := target.recs[len(target.recs)-1]
			if r.Msg != msg || r.Lvl != lvl {
				c.Fatalf("record is %v %q, want %v %q", r.Lvl, r.Msg, lvl, msg)
			}
			if r.Time.Before(t0) || r.Time.After(t1) {
				c.Fatalf("record time %v not within [%v, %v]", r.Time, t0, t1)
			}
			if r.KeyNames != (log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}) {
				c.Fatalf("key names %+v", r.KeyNames)
			}
			if f := r.Call.Frame().Function; !strings.HasSuffix(f, "c23.emit") {
				c.Fatalf("call site is %q", f)
			}
			if err := matches(append(n.chunks(), want...), r.Ctx); err != nil {
				c.Fatalf("depth %d: %v; context %v", n.depth, err, r.Ctx)
			}
			if !reflect.DeepEqual(before, append([]any{}, a[:cap(a)]...)) {
				c.Fatalf("the caller's slice changed from %v to %v", before, a[:cap(a)])
			}
			records++
		}
		ops := rapid.IntRange(1, 30).Draw(c.T, "ops")
		for i := 0; i < ops; i++ {
			n := nodes[rapid.IntRange(0, len(nodes)-1).Draw(c.T, "node")]
			switch k := rapid.IntRange(0, 9).Draw(c.T, "op"); {
			case k < 3:
				a, want := args(c.T)
				before := append([]any{}, a[:cap(a)]...)
				var l log.Logger
				if n.parent == nil && rapid.Bool().Draw(c.T, "pkg") {
					l = log.New(a...)
				} else {
					l = n.l.New(a...)
				}
				if !reflect.DeepEqual(before, append([]any{}, a[:cap(a)]...)) {
					c.Fatalf("New changed the caller's slice from %v to %v", before, a[:cap(a)])
				}
				nodes = append(nodes, &node{l: l, parent: n, ctx: want, depth: n.depth + 1})
				passed = append(passed, a)
				desc += fmt.Sprintf(" new(%d,%d)", n.depth, len(a))
			case k < 4:
				s := newSink()
				if len(sinks) > 1 && rapid.Bool().Draw(c.T, "reuse") {
					s = sinks[rapid.IntRange(0, len(sinks)-1).Draw(c.T, "sink")]
				}
				n.l.SetHandler(s)
				n.own = s
				if g := n.l.GetHandler(); g != log.Handler(s) {
					c.Fatalf("GetHandler returns %v after SetHandler", g)
				}
				desc += fmt.Sprintf(" handler(%d)", n.depth)
			case k < 5 && len(passed) > 0: // the caller reuses a slice it passed to New
				p := passed[rapid.IntRange(0, len(passed)-1).Draw(c.T, "slice")]
				for j := range p[:cap(p)] {
					if _, ok := p[:cap(p)][j].(log.Ctx); ok && len(p) == 1 {
						m := p[0].(log.Ctx)
						m["overwritten"] = true
						continue
					}
					p[:cap(p)][j] = "overwritten"
				}
				desc += " overwrite"
			case k < 6: // a handler extends and rewrites what it received
				s := n.sink()
				if len(s.recs) > 0 {
					r := s.recs[len(s.recs)-1]
					if rapid.Bool().Draw(c.T, "extend") {
						r.Ctx = append(r.Ctx, "added", "by handler")
					}
					for j := range r.Ctx {
						r.Ctx[j] = "rewritten"
					}
				}
			default:
				a, want := args(c.T)
				check(n, rapid.SampledFrom(levels).Draw(c.T, "lvl"), rapid.IntRange(0, 2).Draw(c.T, "how"), vh.Str(c.T, 20, "msg"), a, want)
				desc += fmt.Sprintf(" log(%d,%d)", n.depth, len(a))
			}
		}
		for _, n := range nodes {
			check(n, log.LvlInfo, rapid.IntRange(0, 2).Draw(c.T, "how"), "final", nil, nil)
		}
		c.Note(len(nodes) > 1, "%d loggers, %d handlers, %d records:%s", len(nodes), len(sinks), records, desc)
		c.Class("loggers %d", min(len(nodes), 8))
	})
}

func TestLevels(t *testing.T) {
	names := map[string]log.Lvl{"trace": log.LvlTrace, "trce": log.LvlTrace, "debug": log.LvlDebug, "dbug": log.LvlDebug, "info": log.LvlInfo,
		"warn": log.LvlWarn, "error": log.LvlError, "eror": log.LvlError, "crit": log.LvlCrit}
	all := append([]log.Lvl{log.LvlCrit}, levels...)
	vh.Run(t, vh.Opt{N: 5000, Rule: "level names (documented ones, variations, arbitrary text) and all levels; non-trivial: a documented name or near it"}, func(c *vh.C) {
		l := rapid.SampledFrom(all).Draw(c.T, "lvl")
		got, err := log.LvlFromString(l.String())
		if err != nil || got != l {
			c.Fatalf("%v reads back as %v, %v", l, got, err)
		}
		if strings.TrimSpace(l.AlignedString()) == "" || len(l.AlignedString()) != 5 {
			c.Fatalf("aligned name %q", l.AlignedString())
		}
		if got, err := log.LvlFromString(strings.ToLower(strings.TrimSpace(l.AlignedString()))); err != nil || got != l {
			c.Fatalf("aligned name %q reads back as %v, %v", l.AlignedString(), got, err)
		}
		var s string
		switch rapid.IntRange(0, 3).Draw(c.T, "kind") {
		case 0:
			s = vh.Str(c.T, 8, "s")
		default:
			ks := []string{"trace", "trce", "debug", "dbug", "info", "warn", "error", "eror", "crit"}
			s = rapid.SampledFrom(ks).Draw(c.T, "name")
			switch rapid.IntRange(0, 4).Draw(c.T, "mod") {
			case 0:
				s = strings.ToUpper(s)
			case 1:
				s += " "
			case 2:
				s = s[:len(s)-1]
			}
		}
		c.Note(len(s) > 2 && len(s) < 8, "%q", s)
		got, err = log.LvlFromString(s)
		w, ok := names[s]
		if ok && (err != nil || got != w) {
			c.Fatalf("%q is %v, %v", s, got, err)
		}
		if !ok && err == nil {
			c.Fatalf("%q accepted as %v", s, got)
		}
	})
}

// TestFresh never sets a handler: every record is dropped.
func TestFresh(t *testing.T) {
	vh.Run(t, vh.Opt{N: 300, Rule: "package-level calls and loggers derived from the root before any handler was set, with the standard streams redirected to a file; all non-trivial"}, func(c *vh.C) {
		path := filepath.Join(os.Getenv("VH_WORK"), "streams")
		f, err := os.OpenFile(path, os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0600)
		if err != nil {
			t.Skip(err)
		}
		defer f.Close()
		a, _ := args(c.T)
		lvl := rapid.SampledFrom(levels).Draw(c.T, "lvl")
		how := rapid.IntRange(0, 2).Draw(c.T, "how")
		c.Note(true, "%v %d %v", lvl, how, a)
		n := &node{l: log.Root()}
		if rapid.Bool().Draw(c.T, "derived") {
			n = &node{l: log.New("a", 1), parent: n}
		}
		o, _ := syscall.Dup(1)
		e, _ := syscall.Dup(2)
		syscall.Dup3(int(f.Fd()), 1, 0)
		syscall.Dup3(int(f.Fd()), 2, 0)
		p := vh.Caught(func() { emit(n, lvl, how, "msg", a) })
		syscall.Dup3(o, 1, 0)
		syscall.Dup3(e, 2, 0)
		syscall.Close(o)
		syscall.Close(e)
		if p != nil {
			c.Fatalf("panic: %v", p)
		}
		if b, _ := os.ReadFile(path); len(b) != 0 {
			c.Fatalf("record was not dropped: %q", b)
		}
	})
}

// TestCrit: a critical record reaches the handler before the program ends.
func TestCrit(t *testing.T) {
	if m := os.Getenv("C23_CRIT"); m != "" {
		log.Root().SetHandler(log.StreamHandler(os.Stdout, log.FormatFunc(func(r *log.Record) []byte {
			return []byte(fmt.Sprintf("<%d|%s|%v>\n", r.Lvl, r.Msg, r.Ctx))
		})))
		if m == "pkg" {
			log.Crit("the end", "a", 1)
			os.Exit(5)
		}
		log.New("p", 0).Crit("the end", "a", 1)
		os.Exit(5)
	}
	vh.Run(t, vh.Opt{N: 10, Max: 20, Rule: "critical records in a child process, through the package and through a logger; all non-trivial"}, func(c *vh.C) {
		m := rapid.SampledFrom([]string{"pkg", "logger"}).Draw(c.T, "mode")
		c.Note(true, "%s", m)
		cmd := exec.Command(os.Args[0], "-test.run", "^TestCrit$")
		cmd.Env = append(os.Environ(), "C23_CRIT="+m, "VH_STATS=")
		out, err := cmd.Output()
		want := "<0|the end|[a 1]>\n"
		if m == "logger" {
			want = "<0|the end|[p 0 a 1]>\n"
		}
		if !bytes.HasPrefix(out, []byte(want)) && !bytes.HasSuffix(out, []byte(want)) || bytes.Count(out, []byte("the end")) != 1 {
			c.Fatalf("%s: output %q, want %q", m, out, want)
		}
		if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 {
			c.Fatalf("%s: ended with %v", m, err)
		}
	})
}
