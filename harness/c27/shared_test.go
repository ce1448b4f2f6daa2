package c27

import (
	"fmt"
	"testing"

	"flychain/rlp/internal/rlpstruct"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

func TestShared(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1500, Rule: vh.SharedRule}, func(c *vh.C) {
		vh.Shared(c, vh.Ops(c, 8, func(c *vh.C) vh.Op {
			var fields []rlpstruct.Field
			for i := rapid.IntRange(0, 4).Draw(c.T, "n"); i > 0; i-- {
				_, tag := drawTag(c.T)
				fields = append(fields, rlpstruct.Field{Name: fmt.Sprintf("F%d", i), Index: len(fields), Exported: rapid.IntRange(0, 4).Draw(c.T, "exp") > 0, Type: drawType(c.T, 2), Tag: tag})
			}
			desc := fmt.Sprintf("%+v", fields)
			return vh.Op{Name: "fields " + desc, F: func() []any {
				f, ts, err := rlpstruct.ProcessFields(fields)
				out := fmt.Sprintf("%+v %+v %v", f, ts, err)
				for i := range f { // the caller's
					f[i] = rlpstruct.Field{}
				}
				for i := range ts {
					ts[i] = rlpstruct.Tags{Ignored: true, Tail: true}
				}
				return vh.R(out, fmt.Sprintf("%+v", fields) == desc)
			}}
		}))
	})
}
