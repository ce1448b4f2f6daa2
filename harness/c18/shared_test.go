package c18

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"testing"

	"flychain/crypto/randentropy"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

func TestShared(t *testing.T) {
	vh.Run(t, vh.Opt{N: 400, Rule: vh.SharedRule}, func(c *vh.C) {
		vh.Shared(c, vh.Ops(c, 6, func(c *vh.C) vh.Op {
			k := curves[rapid.IntRange(0, 3).Draw(c.T, "curve")]
			return vh.Cat(c,
				func() vh.Op {
					ent := vh.Raw(c.T, 3*k.n, "entropy")
					return vh.Op{Name: fmt.Sprintf("%s: key from %x", k.name, ent), F: func() []any {
						priv, x, y, err := k.c.GenerateKey(&source{data: append([]byte{}, ent...), err: io.EOF})
						return vh.R(priv, x, y, err)
					}}
				},
				func() vh.Op {
					x, y := vh.Big(c.T, 8*k.n, "x"), vh.Big(c.T, 8*k.n, "y")
					return vh.Op{Name: fmt.Sprintf("%s: encoding of (%x,%x)", k.name, x, y), F: func() []any {
						b := k.c.Marshal(new(big.Int).Set(x), new(big.Int).Set(y))
						ux, uy := k.c.Unmarshal(append([]byte{}, b...))
						return vh.R(b, ux, uy)
					}}
				},
				func() vh.Op {
					n := 24 + vh.Len(c.T, 100, "n")
					return vh.Op{Name: fmt.Sprintf("%d bytes of entropy", n), F: func() []any {
						a, b := randentropy.GetEntropyCSPRNG(n), make([]byte, n)
						k, err := io.ReadFull(randentropy.Reader, b)
						zero := make([]byte, n)
						return vh.R(len(a), k, err, bytes.Equal(a, b), bytes.Equal(a, zero), bytes.Equal(b, zero))
					}}
				},
			)
		}))
	})
}

// TestFresh checks that generated keys own their memory: later keys and the
// entropy source do not change earlier ones.
func TestFresh(t *testing.T) {
	vh.Run(t, vh.Opt{N: 300, Rule: "several key pairs in a row, each overwritten by its owner or kept; non-trivial: all"}, func(c *vh.C) {
		k := curves[rapid.IntRange(0, 3).Draw(c.T, "curve")]
		n := rapid.IntRange(2, 4).Draw(c.T, "keys")
		c.Note(true, "%s: %d keys", k.name, n)
		var keep [][]byte
		var privs [][]byte
		for i := 0; i < n; i++ {
			priv, _, _, err := k.c.GenerateKey(&source{data: vh.Raw(c.T, 4*k.n, "ent"), err: io.EOF})
			if err != nil {
				c.Fatalf("%s: %v", k.name, err)
			}
			for j := range privs {
				if !bytes.Equal(privs[j], keep[j]) {
					c.Fatalf("%s: private key %d was %x and is %x after key %d was made", k.name, j, keep[j], privs[j], i)
				}
			}
			privs, keep = append(privs, priv), append(keep, append([]byte{}, priv...))
		}
	})
}
