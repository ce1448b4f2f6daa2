package c04

import (
	"fmt"
	"strings"
	"testing"

	"flychain/common"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

func TestShared(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1500, Rule: vh.SharedRule}, func(c *vh.C) {
		vh.Shared(c, vh.Ops(c, 12, func(c *vh.C) vh.Op {
			a := addr(c)
			h := common.BytesToHash(vh.Raw(c.T, 32, "h"))
			verb := rapid.SampledFrom([]string{"%v", "%s", "%q", "%x", "%X", "%#x", "%d", "%t"}).Draw(c.T, "verb")
			s := a.Hex()
			switch rapid.IntRange(0, 2).Draw(c.T, "casing") {
			case 0:
				s = "0x" + strings.ToUpper(s[2:])
			case 1:
				s = s[2:]
			}
			return vh.Cat(c,
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("%s of address %x", verb, a[:]), F: func() []any { return vh.R(a.Hex(), a.String(), fmt.Sprintf(verb, a)) }}
				},
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("%s of hash %x", verb, h[:]), F: func() []any { return vh.R(h.Hex(), h.String(), fmt.Sprintf(verb, h), h.TerminalString()) }}
				},
				func() vh.Op {
					return vh.Op{Name: "mixed-case " + s, F: func() []any {
						m, err := common.NewMixedcaseAddressFromString(s)
						if err != nil {
							return vh.R(err)
						}
						j, err := m.MarshalJSON()
						var back common.MixedcaseAddress
						e2 := back.UnmarshalJSON(append([]byte(nil), j...))
						return vh.R(m.ValidChecksum(), m.String(), m.Original(), j, err, back.Original(), e2, common.IsHexAddress(s))
					}}
				},
				func() vh.Op {
					return vh.Op{Name: "NewMixedcaseAddress " + s, F: func() []any {
						m := common.NewMixedcaseAddress(a)
						return vh.R(m.ValidChecksum(), m.Original(), m.Address())
					}}
				},
			)
		}))
	})
}
