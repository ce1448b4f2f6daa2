package c21

import (
	"fmt"
	"math/big"
	"testing"
	"time"

	"flychain/log"
	"flychain/rlp/zzverif/lg"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

func TestShared(t *testing.T) {
	lf := log.LogfmtFormat()
	vh.Run(t, vh.Opt{N: 1500, Rule: vh.SharedRule}, func(c *vh.C) {
		big1 := lg.BigInt(c.T, "shared")
		vh.Shared(c, vh.Ops(c, 10, func(c *vh.C) vh.Op {
			u, i := vh.U64(c.T, "u"), lg.Int(c.T, "i")
			v := lg.Num(c.T, "v")
			return vh.Cat(c,
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("format %d and %d", u, i), F: func() []any {
						return vh.R(log.FormatLogfmtUint64(u), log.FormatLogfmtInt64(i))
					}}
				},
				func() vh.Op {
					if rapid.Bool().Draw(c.T, "big") {
						v.V = big1
					}
					r := &log.Record{Time: time.Unix(1, 0).UTC(), Lvl: log.LvlInfo, Msg: "m", Ctx: []any{"k", v.V}, KeyNames: log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}}
					return vh.Op{Name: fmt.Sprintf("line of %v", v.V), F: func() []any {
						return vh.R(vh.Loose(lf.Format(r)), new(big.Int).Set(big1))
					}}
				},
			)
		}))
	})
}
