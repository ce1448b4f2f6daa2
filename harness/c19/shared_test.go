package c19

import (
	"fmt"
	"testing"

	"flychain/crypto"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

func TestShared(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1500, Rule: vh.SharedRule}, func(c *vh.C) {
		vh.Shared(c, vh.Ops(c, 8, func(c *vh.C) vh.Op {
			msg := ""
			var ws []string
			for i := vh.Len(c.T, 5, "groups"); i > 0; i-- {
				g := group(c.T)
				e := encode(g)
				msg, ws = msg+fmt.Sprintf("%08x", g), append(ws, e[:]...)
			}
			if rapid.Bool().Draw(c.T, "decode") {
				return vh.Op{Name: fmt.Sprintf("decode %q", ws), F: func() []any {
					in := append([]string{}, ws...)
					out := crypto.MnemonicDecode(in)
					return vh.R(out, in)
				}}
			}
			return vh.Op{Name: fmt.Sprintf("encode %q", msg), F: func() []any { return vh.R(crypto.MnemonicEncode(msg)) }}
		}))
		for i, w := range crypto.MnemonicWords {
			if w != words[i] {
				c.Fatalf("word %d of the list was changed to %q", i, w)
			}
		}
	})
}
