package c29

import (
	"encoding/json"
	"testing"

	"flychain/common/compiler"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

func TestShared(t *testing.T) {
	vh.Run(t, vh.Opt{N: 500, Rule: vh.SharedRule}, func(c *vh.C) {
		vh.Shared(c, vh.Ops(c, 6, func(c *vh.C) vh.Op {
			cs, names := drawSet(c.T, 0)
			s := drawStrs(c.T)
			d := doc(c.T, cs, names, rapid.Bool().Draw(c.T, "new"), "\xff")
			if rapid.IntRange(0, 4).Draw(c.T, "cut") == 0 {
				d = d[:len(d)/2]
			}
			return vh.Op{Name: "parse " + string(d), F: func() []any {
				m, err := compiler.ParseCombinedJSON(append([]byte(nil), d...), s.source, s.lang, s.comp, s.opts)
				text, _ := json.Marshal(m)
				for _, x := range m { // the caller's
					for k := range x.Hashes {
						x.Hashes[k] = "?"
					}
					*x = compiler.Contract{}
				}
				return vh.R(text, err)
			}}
		}))
	})
}
