package c05

import (
	"fmt"
	"testing"

	"flychain/common"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

func TestShared(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1500, Rule: vh.SharedRule}, func(c *vh.C) {
		vh.Shared(c, vh.Ops(c, 12, func(c *vh.C) vh.Op {
			b := vh.Bytes(c.T, 40, "b")
			n := rapid.IntRange(0, 60).Draw(c.T, "n")
			s := vh.Hex(c.T, rapid.IntRange(0, 80).Draw(c.T, "digits"), "hex")
			if rapid.Bool().Draw(c.T, "prefix") {
				s = "0x" + s
			}
			cp := func() []byte { return append([]byte(nil), b...) }
			return vh.Cat(c,
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("pad and trim %x %d", b, n), F: func() []any {
						return vh.R(common.LeftPadBytes(cp(), n), common.RightPadBytes(cp(), n), common.TrimLeftZeroes(cp()), common.TrimRightZeroes(cp()), common.CopyBytes(cp()))
					}}
				},
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("hex of %x", b), F: func() []any { return vh.R(common.Bytes2Hex(cp())) }}
				},
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("parse %q %d", s, n), F: func() []any {
						r, err := common.ParseHexOrString(s)
						return vh.R(common.FromHex(s), common.Hex2Bytes(s), common.Hex2BytesFixed(s, n), r, err)
					}}
				},
			)
		}))
	})
}
