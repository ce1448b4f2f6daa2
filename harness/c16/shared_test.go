package c16

import (
	"fmt"
	"testing"

	"flychain/crypto/randentropy"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

func TestShared(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1500, Rule: vh.SharedRule}, func(c *vh.C) {
		vh.Shared(c, vh.Ops(c, 8, func(c *vh.C) vh.Op {
			al := algs[rapid.IntRange(0, 3).Draw(c.T, "alg")]
			m := vh.Raw(c.T, msgLen(c.T, 200-2*al.size), "msg")
			cut := rapid.IntRange(0, len(m)).Draw(c.T, "cut")
			if al.size == 32 && rapid.Bool().Draw(c.T, "helper") {
				return vh.Op{Name: fmt.Sprintf("Sha3 of %d bytes", len(m)), F: func() []any {
					return vh.R(randentropy.Sha3(append([]byte{}, m...)))
				}}
			}
			return vh.Op{Name: fmt.Sprintf("Keccak-%d of %d bytes cut at %d", al.size*8, len(m), cut), F: func() []any {
				p := append([]byte{}, m...)
				h := al.mk()
				h.Write(p[:cut])
				s1 := h.Sum(nil)
				h.Write(p[cut:])
				s2 := h.Sum(make([]byte, 1, 100))
				h.Reset()
				return vh.R(s1, s2, h.Sum([]byte{7}), h.Size(), h.BlockSize())
			}}
		}))
	})
}
