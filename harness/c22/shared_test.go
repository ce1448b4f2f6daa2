package c22

import (
	"testing"

	"flychain/log"
	"flychain/rlp/zzverif/lg"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

func TestShared(t *testing.T) {
	fs := []log.Format{log.JSONFormat(), log.JSONFormatEx(true, true), log.JSONFormatEx(false, false), log.JSONFormatOrderedEx(false, true), log.JSONFormatOrderedEx(true, false)}
	vh.Run(t, vh.Opt{N: 800, Rule: vh.SharedRule}, func(c *vh.C) {
		recs := []*lg.Rec{lg.Record(c.T, 4), lg.Record(c.T, 4), lg.Record(c.T, 2)}
		vh.Shared(c, vh.Ops(c, 8, func(c *vh.C) vh.Op {
			r := recs[rapid.IntRange(0, len(recs)-1).Draw(c.T, "rec")]
			f := fs[rapid.IntRange(0, len(fs)-1).Draw(c.T, "format")]
			return vh.Op{Name: "format " + r.Describe(), F: func() []any { return vh.R(f.Format(r.R)) }}
		}))
	})
}
