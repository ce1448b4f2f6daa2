// Package c19 checks property C19: mnemonic words.
package c19

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"strings"
	"testing"

	"flychain/crypto"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

const listHash = "b329cea782bdd8b1de49bbb9fbdef9e8230e15eb08f0d7952613992246c38f96"

var words = append([]string{}, crypto.MnemonicWords...)

// encode is the published scheme: three words per 32 bits.
func encode(v uint32) (out [3]string) {
	n := uint64(1626)
	x := uint64(v)
	w1 := x % n
	w2 := (x/n + w1) % n
	w3 := (x/n/n + w2) % n
	return [3]string{words[w1], words[w2], words[w3]}
}

func group(t *rapid.T) uint32 {
	switch rapid.IntRange(0, 4).Draw(t, "gk") {
	case 0: // around products of the list length
		n := uint64(1626)
		a := uint64(rapid.IntRange(0, 1625).Draw(t, "a"))
		b := uint64(rapid.IntRange(0, 1625).Draw(t, "b"))
		return uint32(a*n*n + b*n + uint64(rapid.IntRange(-2, 2).Draw(t, "d")))
	case 1:
		return uint32(vh.U64(t, "u"))
	case 2:
		return ^uint32(0) - uint32(rapid.IntRange(0, 3).Draw(t, "top"))
	case 3:
		return uint32(rapid.IntRange(0, 5).Draw(t, "small"))
	}
	return binary.BigEndian.Uint32(vh.Raw(t, 4, "raw"))
}

func TestRoundTrip(t *testing.T) {
	vh.Run(t, vh.Opt{N: 10000, Rule: "hex messages of 0-12 groups of eight digits in any case; non-trivial: at least one group"}, func(c *vh.C) {
		n := vh.Len(c.T, 12, "groups")
		var msg, low strings.Builder
		var want []string
		up := rapid.IntRange(0, 2).Draw(c.T, "case")
		for i := 0; i < n; i++ {
			g := group(c.T)
			w := encode(g)
			want = append(want, w[:]...)
			d := fmt.Sprintf("%08x", g)
			low.WriteString(d)
			if up == 1 || up == 2 && g&1 == 0 {
				d = strings.ToUpper(d)
			}
			msg.WriteString(d)
		}
		c.Note(n > 0, "%s", msg.String())
		got := crypto.MnemonicEncode(msg.String())
		if len(got) != 3*n {
			c.Fatalf("%d words for %q", len(got), msg.String())
		}
		for i := range got {
			if got[i] != want[i] {
				c.Fatalf("word %d of %q is %q, want %q", i, msg.String(), got[i], want[i])
			}
			if p := crypto.IndexOf(crypto.MnemonicWords, got[i]); p < 0 || crypto.MnemonicWords[p] != got[i] {
				c.Fatalf("word %q is not in the list (%d)", got[i], p)
			}
		}
		other := crypto.MnemonicEncode(fmt.Sprintf("%08x", group(c.T)))
		if back := crypto.MnemonicDecode(got); back != low.String() {
			c.Fatalf("%q decodes to %q", msg.String(), back)
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			c.Fatalf("the words of %q became %q", msg.String(), got)
		}
		for i := range other { // the words are the caller's
			other[i] = "spoilt"
		}
	})
}

func TestGroups(t *testing.T) {
	vh.Run(t, vh.Opt{N: 3000, Rule: "64 consecutive or strided 32-bit groups per case; non-trivial: all"}, func(c *vh.C) {
		g := group(c.T)
		stride := rapid.SampledFrom([]uint32{1, 1, 1625, 1626, 1627, 1626 * 1626, 0x01000193}).Draw(c.T, "stride")
		c.Note(true, "%08x + %d", g, stride)
		seen := map[string]uint32{}
		for i := 0; i < 64; i++ {
			m := fmt.Sprintf("%08x", g)
			w := crypto.MnemonicEncode(m)
			k := strings.Join(w, " ")
			if o, dup := seen[k]; dup && o != g {
				c.Fatalf("%08x and %08x encode to %q", o, g, k)
			}
			seen[k] = g
			if e := encode(g); len(w) != 3 || [3]string(w) != e {
				c.Fatalf("%s encodes to %v, want %v", m, w, e)
			}
			if back := crypto.MnemonicDecode(w); back != m {
				c.Fatalf("%s decodes to %s", m, back)
			}
			g += stride
		}
	})
}

func TestList(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1626, Max: 1626, Rule: "every word of the list and mutated words; non-trivial: all"}, func(c *vh.C) {
		if h := fmt.Sprintf("%x", sha256.Sum256([]byte(strings.Join(crypto.MnemonicWords, "\n")))); h != listHash || len(crypto.MnemonicWords) != 1626 {
			c.Fatalf("the word list is not the published one (%d words, %s)", len(crypto.MnemonicWords), h)
		}
		i := rapid.IntRange(0, 1625).Draw(c.T, "i")
		w := crypto.MnemonicWords[i]
		c.Note(true, "%s", w)
		if p := crypto.IndexOf(crypto.MnemonicWords, w); p != int64(i) {
			c.Fatalf("IndexOf(%q) = %d, want %d (words are distinct)", w, p, i)
		}
		for _, x := range []string{w + "x", strings.ToUpper(w), w[:len(w)-1], ""} {
			want := int64(-1)
			for k, y := range words {
				if x == y {
					want = int64(k)
				}
			}
			if p := crypto.IndexOf(crypto.MnemonicWords, x); p != want {
				c.Fatalf("IndexOf(%q) = %d, want %d", x, p, want)
			}
		}
		// any slice: the first position
		s := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b", "c", ""}), 0, 6).Draw(c.T, "slice")
		v := rapid.SampledFrom([]string{"a", "b", "c", "", "d"}).Draw(c.T, "v")
		want := int64(-1)
		for k := len(s) - 1; k >= 0; k-- {
			if s[k] == v {
				want = int64(k)
			}
		}
		if p := crypto.IndexOf(s, v); p != want {
			c.Fatalf("IndexOf(%q, %q) = %d, want %d", s, v, p, want)
		}
	})
}
