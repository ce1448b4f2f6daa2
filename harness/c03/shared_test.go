package c03

import (
	"fmt"
	"math/big"
	"testing"

	"flychain/common/hexutil"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

func TestShared(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1500, Rule: vh.SharedRule}, func(c *vh.C) {
		vh.Shared(c, vh.Ops(c, 12, func(c *vh.C) vh.Op {
			ty := draw(c)
			b := vh.Raw(c.T, ty.n, "b")
			s := hexutil.Encode(b)
			if !ty.prefixed {
				s = s[2:]
			}
			if rapid.IntRange(0, 3).Draw(c.T, "broken") == 0 {
				s = s[:len(s)-rapid.IntRange(1, 3).Draw(c.T, "cut")]
			}
			cp := func() []byte { return append([]byte(nil), b...) }
			long := vh.Bytes(c.T, 70, "long")
			alts := []func() vh.Op{
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("%s %x to text", ty.name, b), F: func() []any {
						t1, e1 := ty.text(cp())
						t2, e2 := ty.json(cp())
						t3, e3 := ty.mapKey(cp())
						return vh.R(t1, e1, t2, e2, t3, e3)
					}}
				},
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("%s from %q", ty.name, s), F: func() []any {
						t1, e1 := ty.unText(make([]byte, ty.n), []byte(s))
						t2, e2 := ty.stdJSON(make([]byte, ty.n), []byte(`"`+s+`"`))
						return vh.R(t1, e1, t2, e2)
					}}
				},
			}
			if ty.prefixed {
				alts = append(alts,
					func() vh.Op {
						return vh.Op{Name: fmt.Sprintf("%s %x database value", ty.name, b), F: func() []any {
							v, e1 := ty.value(cp())
							raw, _ := v.([]byte)
							r, e2 := ty.scan(make([]byte, ty.n), append([]byte(nil), raw...))
							return vh.R(raw, e1, r, e2)
						}}
					},
					func() vh.Op {
						return vh.Op{Name: fmt.Sprintf("%s %x views", ty.name, b), F: func() []any {
							return vh.R(ty.bytes(cp()), ty.big(cp()), ty.hexs(cp()))
						}}
					},
					func() vh.Op {
						return vh.Op{Name: fmt.Sprintf("%s built from %x", ty.name, long), F: func() []any {
							l := append([]byte(nil), long...)
							return vh.R(ty.fromBytes(l), ty.fromBig(new(big.Int).SetBytes(l)), ty.fromHex(fmt.Sprintf("%x", l)), ty.setBytes(make([]byte, ty.n), l))
						}}
					},
					func() vh.Op {
						return vh.Op{Name: fmt.Sprintf("%s GraphQL %q", ty.name, s), F: func() []any {
							r, err := ty.gql(make([]byte, ty.n), s)
							return vh.R(r, err)
						}}
					})
			}
			return vh.Cat(c, alts...)
		}))
	})
}
