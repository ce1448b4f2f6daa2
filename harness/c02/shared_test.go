package c02

import (
	"fmt"
	"math/big"
	"testing"

	"flychain/common/hexutil"
	"flychain/rlp/zzverif/vh"
)

func TestShared(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1500, Rule: vh.SharedRule}, func(c *vh.C) {
		vh.Shared(c, vh.Ops(c, 12, func(c *vh.C) vh.Op {
			u, v, s := vh.U64(c.T, "u"), vh.Big(c.T, 256, "v"), text(c.T)
			cp := func() *big.Int { return new(big.Int).Set(v) }
			return vh.Cat(c,
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("encode %d %d", u, v), F: func() []any {
						t1, e1 := hexutil.Uint64(u).MarshalText()
						t2, e2 := hexutil.Uint(u).MarshalText()
						t3, e3 := hexutil.Big(*cp()).MarshalText()
						return vh.R(hexutil.EncodeUint64(u), hexutil.EncodeBig(cp()), t1, e1, t2, e2, t3, e3,
							hexutil.Uint64(u).String(), hexutil.Uint(u).String(), (*hexutil.Big)(cp()).String())
					}}
				},
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("Decode(%q)", s), F: func() []any {
						n, e1 := hexutil.DecodeUint64(s)
						b, e2 := hexutil.DecodeBig(s)
						return vh.R(n, e1, b, e2)
					}}
				},
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("Unmarshal(%q)", s), F: func() []any {
						var a hexutil.Uint64
						var b hexutil.Uint
						var d, e hexutil.Big
						e1, e2, e3, e4 := a.UnmarshalText([]byte(s)), b.UnmarshalJSON([]byte(`"`+s+`"`)), d.UnmarshalText([]byte(s)), e.UnmarshalGraphQL(s)
						return vh.R(uint64(a), e1, uint(b), e2, d.ToInt(), e3, e.ToInt(), e4)
					}}
				},
			)
		}))
	})
}
