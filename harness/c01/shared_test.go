package c01

import (
	"fmt"
	"testing"

	"flychain/common/hexutil"
	"flychain/rlp/zzverif/vh"
)

func TestShared(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1500, Rule: vh.SharedRule}, func(c *vh.C) {
		vh.Shared(c, vh.Ops(c, 12, func(c *vh.C) vh.Op {
			b, s := vh.Bytes(c.T, 60, "b"), input(c.T)
			cp := func() []byte { return append([]byte(nil), b...) }
			return vh.Cat(c,
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("Encode(%x)", b), F: func() []any { return vh.R(hexutil.Encode(cp())) }}
				},
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("Decode(%q)", s), F: func() []any { r, err := hexutil.Decode(s); return vh.R(r, err) }}
				},
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("Bytes(%x)", b), F: func() []any {
						x := hexutil.Bytes(cp())
						txt, err := x.MarshalText()
						return vh.R(txt, err, x.String())
					}}
				},
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("Bytes.UnmarshalText(%q)", s), F: func() []any {
						var x, y, z hexutil.Bytes
						e1, e2, e3 := x.UnmarshalText([]byte(s)), y.UnmarshalJSON([]byte(`"`+s+`"`)), z.UnmarshalGraphQL(s)
						return vh.R([]byte(x), e1, []byte(y), e2, []byte(z), e3)
					}}
				},
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("UnmarshalFixedText(%q)", s), F: func() []any {
						out, out2 := make([]byte, 20), make([]byte, 20)
						e1, e2 := hexutil.UnmarshalFixedText("T", []byte(s), out), hexutil.UnmarshalFixedUnprefixedText("T", []byte(s), out2)
						return vh.R(out, e1, out2, e2)
					}}
				},
			)
		}))
	})
}
