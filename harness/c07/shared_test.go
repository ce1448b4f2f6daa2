package c07

import (
	"fmt"
	"math/big"
	"testing"

	"flychain/common/math"
	"flychain/rlp/zzverif/vh"
)

func TestShared(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1500, Rule: vh.SharedRule}, func(c *vh.C) {
		vh.Shared(c, vh.Ops(c, 12, func(c *vh.C) vh.Op {
			s, v := text(c.T), vh.Big(c.T, 256, "v")
			return vh.Cat(c,
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("parse %q", s), F: func() []any {
						b, ok := math.ParseBig256(s)
						var h math.HexOrDecimal256
						var d math.Decimal256
						e1, e2 := h.UnmarshalText([]byte(s)), d.UnmarshalText([]byte(s))
						return vh.R(b, ok, (*big.Int)(&h), e1, (*big.Int)(&d), e2)
					}}
				},
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("write %d", v), F: func() []any {
						h, d := math.HexOrDecimal256(*new(big.Int).Set(v)), math.Decimal256(*new(big.Int).Set(v))
						t1, e1 := h.MarshalText()
						t2, e2 := d.MarshalText()
						return vh.R(t1, e1, t2, e2, d.String())
					}}
				},
				func() vh.Op {
					return vh.Op{Name: "nil and new", F: func() []any {
						t1, e1 := (*math.HexOrDecimal256)(nil).MarshalText()
						t2, e2 := (*math.Decimal256)(nil).MarshalText()
						x := v.Int64()
						return vh.R(t1, e1, t2, e2, (*big.Int)(math.NewHexOrDecimal256(x)), (*big.Int)(math.NewDecimal256(x)))
					}}
				},
			)
		}))
	})
}
