// Package c26 checks property C26: verbosity and per-module log filters.
package c26

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"flychain/log"
	"flychain/rlp/zzverif/c26/alpha"
	"flychain/rlp/zzverif/c26/alpha/deep"
	"flychain/rlp/zzverif/c26/beta"
	"flychain/rlp/zzverif/vh"

	"github.com/go-stack/stack"
	"pgregory.net/rapid"
)

func local() stack.Call { return stack.Caller(0) }

var sites = []stack.Call{
	alpha.A0(), alpha.A1(), alpha.A2(), alpha.XA0(), alpha.XA1(), alpha.LV0(), alpha.LX0(),
	deep.A0(), deep.A1(), deep.B0(), deep.B1(), deep.B2(), beta.A0(), beta.A1(), beta.AL0(), beta.AL1(), local(),
}

func path(c stack.Call) string { return fmt.Sprintf("%+s", c) }

// rule is one parsed pattern=level rule.
type rule struct {
	pat string
	lvl int
}

// selects reports whether a pattern selects a file: its components, in order
// and adjacent except where a "*" stands for any directories, end the path;
// unless the pattern names a Go file, one file name follows.
func selects(pat, file string) bool {
	var comps []string
	for _, c := range strings.Split(pat, "/") {
		if c != "" {
			comps = append(comps, c)
		}
	}
	for i := range file {
		if file[i] == '/' && tail(comps, file[i:], strings.HasSuffix(pat, ".go")) {
			return true
		}
	}
	return len(comps) == 0 && strings.HasSuffix(pat, ".go")
}

func tail(comps []string, rest string, isFile bool) bool {
	if len(comps) == 0 {
		if isFile {
			return rest == ""
		}
		return strings.HasPrefix(rest, "/") && strings.Count(rest, "/") == 1 && len(rest) > 4 && strings.HasSuffix(rest, ".go")
	}
	if comps[0] == "*" {
		if tail(comps[1:], rest, isFile) {
			return true
		}
		if strings.HasPrefix(rest, "/") {
			for j := 1; j <= len(rest); j++ {
				if tail(comps[1:], rest[j:], isFile) {
					return true
				}
			}
		}
		return false
	}
	c := "/" + comps[0]
	return strings.HasPrefix(rest, c) && tail(comps[1:], rest[len(c):], isFile)
}

type model struct {
	verbosity int
	rules     []rule
	location  string
}

func (m *model) passes(c stack.Call, lvl int) bool {
	if lvl <= m.verbosity {
		return true
	}
	for _, r := range m.rules {
		if selects(r.pat, path(c)) {
			return lvl <= r.lvl
		}
	}
	return false
}

// pattern draws a rule pattern, mostly made from the path of a site.
func pattern(t *rapid.T) string {
	if rapid.IntRange(0, 9).Draw(t, "odd pattern") == 0 {
		return rapid.SampledFrom([]string{"*", "*/*", "/", "//", "nothing", "a", "go", "g.go", "*.go", "al*", "lo(g", "[a", "a.go/*", "a.go/", "alpha//a.go", "+"}).Draw(t, "odd")
	}
	parts := strings.Split(path(rapid.SampledFrom(sites).Draw(t, "site")), "/")[1:]
	hi := len(parts)
	if rapid.Bool().Draw(t, "dir") {
		hi--
	}
	lo := rapid.IntRange(max(0, hi-4), hi-1).Draw(t, "lo")
	if rapid.IntRange(0, 3).Draw(t, "inner dir") == 0 {
		hi = rapid.IntRange(lo+1, hi).Draw(t, "hi")
	}
	ps := append([]string{}, parts[lo:hi]...)
	switch rapid.IntRange(0, 8).Draw(t, "edit") {
	case 0:
		ps[rapid.IntRange(0, len(ps)-1).Draw(t, "at")] = "*"
	case 1:
		ps = append(ps, "*")
	case 2:
		ps = append([]string{"*"}, ps...)
	case 3:
		i := rapid.IntRange(0, len(ps)-1).Draw(t, "at")
		ps = append(ps[:i:i], append([]string{"*"}, ps[i:]...)...)
	case 4: // part of a component
		i := rapid.IntRange(0, len(ps)-1).Draw(t, "at")
		if len(ps[i]) > 1 {
			ps[i] = ps[i][rapid.IntRange(0, 1).Draw(t, "front"):]
		}
	case 5:
		i := rapid.IntRange(0, len(ps)-1).Draw(t, "at")
		if len(ps[i]) > 1 {
			ps[i] = ps[i][:len(ps[i])-1]
		}
	}
	p := strings.Join(ps, "/")
	if rapid.IntRange(0, 9).Draw(t, "slash") == 0 {
		p = "/" + p
	}
	return p
}

// ruleset draws a rule text, its rules and whether it is well-formed.
func ruleset(t *rapid.T) (string, []rule, bool) {
	var texts []string
	var rules []rule
	ok := true
	for i := rapid.IntRange(0, 4).Draw(t, "rules"); i > 0; i-- {
		p := pattern(t)
		sp := func(l string) string { return rapid.SampledFrom([]string{"", "", "", " ", "  "}).Draw(t, l) }
		switch rapid.IntRange(0, 11).Draw(t, "rule") {
		case 0:
			texts = append(texts, "")
		case 1:
			bad := rapid.SampledFrom([]string{p, p + "=", "=3", p + "=x", p + "=1=2", p + "=1.5", " ", "=", p + "=0x3", p + "=99999999999999999999", " =2", p + "= "}).Draw(t, "bad")
			texts = append(texts, bad)
			ok = false
		case 2:
			l := rapid.IntRange(-2, 0).Draw(t, "off")
			texts = append(texts, fmt.Sprintf("%s%s%s=%s%d%s", sp("s1"), p, sp("s2"), sp("s3"), l, sp("s4")))
		default:
			l := rapid.IntRange(1, 6).Draw(t, "level")
			texts = append(texts, fmt.Sprintf("%s%s%s=%s%d%s", sp("s1"), p, sp("s2"), sp("s3"), l, sp("s4")))
			rules = append(rules, rule{p, l})
		}
	}
	return strings.Join(texts, ","), rules, ok
}

type sink struct {
	recs []*log.Record
	err  error
	busy func() // uses the glog handler while a record is handled
}

func (s *sink) Log(r *log.Record) error {
	s.recs = append(s.recs, r)
	if s.busy != nil {
		s.busy()
	}
	return s.err
}

func TestHistory(t *testing.T) {
	base := time.Now()
	vh.Run(t, vh.Opt{N: 10000, Rule: "histories of 1-25 verbosity changes, rule sets (well- and ill-formed, made from the paths of the sites), trace locations, changes of handler (some of which use the filter while they handle a record) and records from 17 call sites in 9 files at any level; non-trivial: at least one rule set in force"}, func(c *vh.C) {
		m := &model{}
		s := &sink{}
		g := log.NewGlogHandler(s)
		text := "" // the rule set in force
		desc := ""
		nt := false
		logOne := func(call stack.Call, lvl int) {
			r := &log.Record{Time: base, Lvl: log.Lvl(lvl), Msg: "m", Ctx: []any{"k", 1}, Call: call, KeyNames: log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}}
			traced := m.location != "" && fmt.Sprintf("%v", call) == m.location
			eff := lvl
			if traced {
				eff = int(log.LvlInfo)
			}
			want := m.passes(call, eff)
			n := len(s.recs)
			err := g.Log(r)
			got := len(s.recs) - n
			if got > 1 || (got == 1) != want {
				c.Fatalf("record of level %d at %+v arrived %d times, want %v (verbosity %d, rules %v, trace %q)", lvl, call, got, want, m.verbosity, m.rules, m.location)
			}
			if want && err != s.err || !want && err != nil {
				c.Fatalf("Log returned %v", err)
			}
			if !want {
				return
			}
			d := s.recs[n]
			if int(d.Lvl) != eff || !d.Time.Equal(base) || fmt.Sprint(d.Ctx) != "[k 1]" || d.Call != call {
				c.Fatalf("record became %v %v %v", d.Lvl, d.Time, d.Ctx)
			}
			if traced {
				if !strings.HasPrefix(d.Msg, "m\n\n") || !strings.Contains(d.Msg, "goroutine ") || !strings.Contains(d.Msg, "c26.TestHistory") {
					c.Fatalf("no stack dump in %.100q", d.Msg)
				}
			} else if d.Msg != "m" {
				c.Fatalf("message became %.100q", d.Msg)
			}
		}
		for i := rapid.IntRange(1, 25).Draw(c.T, "ops"); i > 0; i-- {
			switch k := rapid.IntRange(0, 11).Draw(c.T, "op"); {
			case k == 0:
				m.verbosity = rapid.IntRange(0, 6).Draw(c.T, "verbosity")
				g.Verbosity(log.Lvl(m.verbosity))
				desc += fmt.Sprintf(" v%d", m.verbosity)
			case k <= 2:
				txt, rules, ok := ruleset(c.T)
				err := g.Vmodule(txt)
				if (err == nil) != ok {
					c.Fatalf("Vmodule(%q) = %v", txt, err)
				}
				if ok {
					m.rules, text = rules, txt
					nt = nt || len(rules) > 0
				}
				desc += fmt.Sprintf(" %q", txt)
				c.Class("rule set ok=%v", ok)
			case k == 3:
				if rapid.IntRange(0, 2).Draw(c.T, "bt") == 0 {
					bad := rapid.SampledFrom([]string{"", "a.go", "a.go:", ":3", "a.go:x", "a:3", "a.go:3:4", " :3", "a.go: ", "a.go:1.5", "a.gox:3", "a.go.txt:7", ".go/a:1", "a.go:+"}).Draw(c.T, "badloc")
					if err := g.BacktraceAt(bad); err == nil {
						c.Fatalf("BacktraceAt(%q) accepted", bad)
					}
					break
				}
				m.location = fmt.Sprintf("%v", rapid.SampledFrom(sites).Draw(c.T, "loc"))
				if rapid.IntRange(0, 4).Draw(c.T, "far") == 0 {
					m.location = "other.go:" + rapid.SampledFrom([]string{"1", "-4", "12"}).Draw(c.T, "line")
				}
				if err := g.BacktraceAt(m.location); err != nil {
					c.Fatalf("BacktraceAt(%q) = %v", m.location, err)
				}
				desc += " at " + m.location
			case k == 4:
				s = &sink{}
				if rapid.Bool().Draw(c.T, "failing") {
					s.err = errors.New("sink failed")
				}
				if rapid.IntRange(0, 2).Draw(c.T, "busy") == 0 {
					s.busy = func() {
						g.Verbosity(log.Lvl(m.verbosity))
						g.Vmodule(text)
						if m.location != "" {
							g.BacktraceAt(m.location)
						}
					}
				}
				g.SetHandler(s)
			default:
				call := rapid.SampledFrom(sites).Draw(c.T, "site")
				lvl := rapid.IntRange(0, 5).Draw(c.T, "lvl")
				logOne(call, lvl)
				desc += fmt.Sprintf(" %v@%d", call, lvl)
			}
		}
		// finally every site at a level near the decision
		for _, call := range sites {
			logOne(call, rapid.IntRange(1, 5).Draw(c.T, "final"))
		}
		c.Note(nt, "%s", desc)
	})
}

// TestRealSites logs through the root logger, so that records carry the call
// site of the logging statement.
func TestRealSites(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1000, Rule: "rules for this file or its directory, and records logged for real from it at every level, through methods, package functions and Output with a call depth; all non-trivial"}, func(c *vh.C) {
		s := &sink{}
		g := log.NewGlogHandler(s)
		log.Root().SetHandler(g)
		v, l := rapid.IntRange(0, 5).Draw(c.T, "verbosity"), rapid.IntRange(1, 5).Draw(c.T, "level")
		pat := rapid.SampledFrom([]string{"c26_test.go", "c26", "c26/*", "zzverif/*", "zzverif", "alpha", "c26/alpha/*", "zzverif/c26/c26_test.go"}).Draw(c.T, "pattern")
		c.Note(true, "%s=%d v%d", pat, l, v)
		g.Verbosity(log.Lvl(v))
		if err := g.Vmodule(fmt.Sprintf("%s=%d", pat, l)); err != nil {
			c.Fatalf("%v", err)
		}
		hit := strings.HasPrefix(pat, "c26_") || strings.HasSuffix(pat, "c26_test.go") || pat == "c26" || pat == "c26/*" || pat == "zzverif/*"
		lg := log.New("a", 1)
		for round := 0; round < 2; round++ {
			for lvl := 1; lvl <= 5; lvl++ {
				want := lvl <= v || hit && lvl <= l
				n := len(s.recs)
				switch rapid.IntRange(0, 2).Draw(c.T, "how") {
				case 0:
					log.Output("m", log.Lvl(lvl), 0)
				case 1:
					func() { log.Output("m", log.Lvl(lvl), 1) }()
				default:
					[]func(string, ...any){nil, lg.Error, lg.Warn, lg.Info, lg.Debug, lg.Trace}[lvl]("m")
				}
				if (len(s.recs) > n) != want {
					c.Fatalf("level %d passes %v, want %v (%s=%d, verbosity %d)", lvl, !want, want, pat, l, v)
				}
			}
		}
	})
}

// TestConcurrent logs while the settings change between two states.
func TestConcurrent(t *testing.T) {
	vh.Run(t, vh.Opt{N: 250, Rule: "2-4 goroutines log from all sites while another switches between two settings; records on which both settings agree must be decided so; the last setting decides exactly afterwards; all non-trivial"}, func(c *vh.C) {
		var set [2]model
		var text [2]string
		for i := range set {
			for ok := false; !ok; {
				text[i], set[i].rules, ok = ruleset(c.T)
			}
			set[i].verbosity = rapid.IntRange(0, 5).Draw(c.T, "verbosity")
		}
		n := rapid.IntRange(2, 4).Draw(c.T, "goroutines")
		c.Note(true, "%q v%d / %q v%d, %d goroutines", text[0], set[0].verbosity, text[1], set[1].verbosity, n)
		var mu sync.Mutex
		got := map[*log.Record]int{}
		g := log.NewGlogHandler(log.FuncHandler(func(r *log.Record) error {
			mu.Lock()
			got[r]++
			mu.Unlock()
			return nil
		}))
		apply := func(i int) error {
			g.Verbosity(log.Lvl(set[i].verbosity))
			return g.Vmodule(text[i])
		}
		if err := apply(0); err != nil {
			c.Fatalf("%v", err)
		}
		sent := make([][]*log.Record, n)
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for round := 0; round < 3; round++ {
					for i, call := range sites {
						r := &log.Record{Lvl: log.Lvl((i+k+round)%5 + 1), Call: call}
						sent[k] = append(sent[k], r)
						g.Log(r)
					}
				}
			}()
		}
		for i := 0; i < 8; i++ {
			if err := apply(i % 2); err != nil {
				c.Fatalf("%v", err)
			}
		}
		wg.Wait()
		for _, rs := range sent {
			for _, r := range rs {
				all, none := true, true
				for _, v := range set {
					for _, w := range set {
						p := (&model{verbosity: v.verbosity, rules: w.rules}).passes(r.Call, int(r.Lvl))
						all, none = all && p, none && !p
					}
				}
				if d := got[r]; d > 1 || d == 0 && all || d == 1 && none {
					c.Fatalf("record of level %d at %+v arrived %d times", r.Lvl, r.Call, d)
				}
			}
		}
		for _, call := range sites {
			for lvl := 1; lvl <= 5; lvl++ {
				r := &log.Record{Lvl: log.Lvl(lvl), Call: call}
				g.Log(r)
				if (got[r] == 1) != set[1].passes(call, lvl) {
					c.Fatalf("afterwards, level %d at %+v arrived %d times (%q, verbosity %d)", lvl, call, got[r], text[1], set[1].verbosity)
				}
			}
		}
	})
}
