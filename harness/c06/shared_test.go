package c06

import (
	"fmt"
	"testing"

	"flychain/common/math"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

func TestShared(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1500, Rule: vh.SharedRule}, func(c *vh.C) {
		vh.Shared(c, vh.Ops(c, 12, func(c *vh.C) vh.Op {
			v, w, u := signed(c, 300, "v"), signed(c, 300, "w"), vh.Big(c.T, 256, "u")
			n := rapid.IntRange(0, 40).Draw(c.T, "n")
			a, b := int64(rapid.IntRange(-9, 9).Draw(c.T, "a")), int64(n)
			return vh.Cat(c,
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("reduce %v %v", v, u), F: func() []any {
						return vh.R(math.U256(cp(v)), math.U256Bytes(cp(v)), math.S256(cp(u)))
					}}
				},
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("Exp(%v, %v)", v, u), F: func() []any { return vh.R(math.Exp(cp(v), cp(u)), math.BigPow(a, b)) }}
				},
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("bytes of %v in %d", u, n), F: func() []any {
						buf := make([]byte, n)
						math.ReadBits(cp(u), buf)
						return vh.R(math.PaddedBigBytes(cp(u), n), buf, math.Byte(cp(u), 32, n), math.FirstBitSet(cp(u)))
					}}
				},
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("max and min of %v %v", v, w), F: func() []any {
						return vh.R(math.BigMax(cp(v), cp(w)), math.BigMin(cp(v), cp(w)))
					}}
				},
			)
		}))
	})
}
