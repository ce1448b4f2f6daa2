// Package c21 checks property C21: numbers in log lines.
package c21

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strings"
	"testing"
	"time"

	"flychain/log"
	"flychain/rlp/zzverif/lg"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

func TestStandalone(t *testing.T) {
	vh.Run(t, vh.Opt{N: 60000, Rule: "64-bit integers of every width, near powers of two and ten and code literals, both signs; non-trivial: six digits or more, or negative"}, func(c *vh.C) {
		u := vh.U64(c.T, "u")
		i := lg.Int(c.T, "i")
		switch rapid.IntRange(0, 40).Draw(c.T, "edge") {
		case 0:
			i = math.MinInt64
		case 1:
			i = math.MaxInt64
		case 2:
			u = math.MaxUint64
		}
		c.Note(u >= 100000 || i < 0 || i >= 100000, "%d %d", u, i)
		if got, w := log.FormatLogfmtUint64(u), lg.Commas(new(big.Int).SetUint64(u).String()); got != w {
			c.Fatalf("FormatLogfmtUint64(%d) = %q, want %q", u, got, w)
		}
		if got, w := log.FormatLogfmtInt64(i), lg.Commas(big.NewInt(i).String()); got != w {
			c.Fatalf("FormatLogfmtInt64(%d) = %q, want %q", i, got, w)
		}
	})
}

func TestInRecords(t *testing.T) {
	lf, tf, of := log.LogfmtFormat(), log.TerminalFormat(false), log.JSONFormatOrderedEx(false, false)
	vh.Run(t, vh.Opt{N: 15000, Rule: "records of 1-4 numbers or booleans of every type through logfmt, terminal and ordered JSON; non-trivial: some value is a number"}, func(c *vh.C) {
		n := rapid.IntRange(1, 4).Draw(c.T, "n")
		r := &log.Record{Time: time.Unix(1, 0).UTC(), Lvl: log.LvlInfo, Msg: "m", KeyNames: log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}}
		var vals []lg.Val
		desc := ""
		nt := false
		for k := 0; k < n; k++ {
			v := lg.Num(c.T, "v")
			c.Class("%s", v.Kind)
			vals = append(vals, v)
			nt = nt || v.Kind != "bool"
			desc += fmt.Sprintf(" %s:%v", v.Kind, v.V)
			r.Ctx = append(r.Ctx, fmt.Sprintf("key%d", k), v.V)
		}
		c.Note(nt, "%s", desc)
		check := func(name, rest string) {
			kv, err := lg.ParsePairs(rest)
			if err != nil || len(kv) != n {
				c.Fatalf("%s: %q: %v", name, rest, err)
			}
			for k, v := range vals {
				if kv[k].V != v.Log {
					c.Fatalf("%s: %s %v is written %q, want %q", name, v.Kind, v.V, kv[k].V, v.Log)
				}
			}
		}
		cut := func(s string) string {
			i := strings.Index(s, "key0=")
			if i < 0 {
				c.Fatalf("no pairs in %q", s)
			}
			return strings.TrimSuffix(s[i:], "\n")
		}
		check("logfmt", cut(string(lf.Format(r))))
		check("terminal", cut(string(tf.Format(r))))
		var doc struct{ Ctx []string }
		if err := json.Unmarshal(of.Format(r), &doc); err != nil || len(doc.Ctx) != 2*n {
			c.Fatalf("ordered JSON: %v %q", err, doc.Ctx)
		}
		for k, v := range vals {
			if doc.Ctx[2*k+1] != v.Log {
				c.Fatalf("ordered JSON: %s %v is written %q, want %q", v.Kind, v.V, doc.Ctx[2*k+1], v.Log)
			}
		}
	})
}

func TestBigArgumentsUnchanged(t *testing.T) {
	f := log.LogfmtFormat()
	vh.Run(t, vh.Opt{N: 5000, Rule: "big integers up to 1200 bits, both signs; non-trivial: beyond 64 bits"}, func(c *vh.C) {
		v := vh.Big(c.T, 1200, "v")
		if rapid.Bool().Draw(c.T, "neg") {
			v.Neg(v)
		}
		c.Note(v.BitLen() > 64, "%v", v)
		keep := new(big.Int).Set(v)
		r := &log.Record{Lvl: log.LvlInfo, Ctx: []any{"k", v}, KeyNames: log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl"}}
		out := strings.TrimSuffix(string(f.Format(r)), "\n")
		i := strings.LastIndex(out, "k=")
		got := out[i+2:]
		if got != lg.Commas(keep.String()) {
			c.Fatalf("%v is written %q", keep, got)
		}
		if v.Cmp(keep) != 0 {
			c.Fatalf("argument changed")
		}
	})
}
