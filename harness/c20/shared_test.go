package c20

import (
	"fmt"
	"sync"
	"testing"

	"flychain/log"
	"flychain/rlp/zzverif/lg"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

// TestShared formats records from several goroutines at once (as channel
// handlers sharing a record do) and keeps earlier lines.
func TestShared(t *testing.T) {
	log.PrintOrigins(true)
	defer log.PrintOrigins(false)
	fs := []log.Format{log.LogfmtFormat(), log.TerminalFormat(false), log.TerminalFormat(true)}
	vh.Run(t, vh.Opt{N: 800, Rule: vh.SharedRule + "; lines are compared up to runs of spaces"}, func(c *vh.C) {
		recs := []*lg.Rec{lg.Record(c.T, 4), lg.Record(c.T, 4), lg.Record(c.T, 2)}
		vh.Shared(c, vh.Ops(c, 8, func(c *vh.C) vh.Op {
			r := recs[rapid.IntRange(0, len(recs)-1).Draw(c.T, "rec")]
			f := fs[rapid.IntRange(0, len(fs)-1).Draw(c.T, "format")]
			return vh.Op{Name: "format " + r.Describe(), F: func() []any {
				return vh.R(vh.Loose(f.Format(r.R)))
			}}
		}))
	})
}

// TestConcurrent formats records for the first time from several goroutines.
func TestConcurrent(t *testing.T) {
	log.PrintOrigins(true)
	defer log.PrintOrigins(false)
	lf, tf := log.LogfmtFormat(), log.TerminalFormat(false)
	seq := 0
	vh.Run(t, vh.Opt{N: 800, Rule: "four goroutines formatting records at once whose keys no record had before, under the race detector; non-trivial: all"}, func(c *vh.C) {
		seq++
		var recs []*lg.Rec
		desc := ""
		for i := 0; i < 4; i++ {
			r := lg.Record(c.T, 4)
			if rapid.IntRange(0, 3).Draw(c.T, "fresh") > 0 {
				for k := range r.Pairs { // string keys get a new name, the same for all
					if s, ok := r.R.Ctx[2*k].(string); ok && s != "" {
						s += fmt.Sprintf("_%d", seq)
						r.R.Ctx[2*k], r.Pairs[k].Key = s, s
					}
				}
			}
			recs = append(recs, r)
			desc += r.Describe() + "; "
		}
		c.Note(true, "%s", desc)
		start := make(chan struct{})
		var wg sync.WaitGroup
		errs := make([]error, 8)
		for w := 0; w < 4; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				log.PrintOrigins(true)
				a, b := recs[w], recs[(w+1)%4]
				l, m := lf.Format(a.R), tf.Format(b.R)
				errs[2*w], errs[2*w+1] = checkLogfmt(a, string(l)), checkTerminal(b, string(m), true)
			}()
		}
		close(start)
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				c.Fatalf("%v", err)
			}
		}
	})
}
