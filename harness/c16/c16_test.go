// Package c16 checks property C16: Keccak digests.
package c16

import (
	"bytes"
	"fmt"
	"hash"
	"math/bits"
	"strings"
	"testing"

	"flychain/crypto/randentropy"
	"flychain/crypto/sha3"
	"flychain/rlp/zzverif/vh"

	xsha3 "golang.org/x/crypto/sha3"
	"pgregory.net/rapid"
)

// ref is a direct transcription of the Keccak specification (bit-rate
// 1600-2*8*size, multi-rate padding 0x01…0x80), independent of x/crypto.
func ref(size int, msg []byte) []byte {
	rate := 200 - 2*size
	p := append(append([]byte{}, msg...), 0x01)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	var a [5][5]uint64
	for len(p) > 0 {
		for i := 0; i < rate; i++ {
			l := i / 8
			a[l%5][l/5] ^= uint64(p[i]) << (8 * (i % 8))
		}
		p = p[rate:]
		permute(&a)
	}
	out := make([]byte, size)
	for i := range out {
		l := i / 8
		out[i] = byte(a[l%5][l/5] >> (8 * (i % 8)))
	}
	return out
}

var rot = func() (r [5][5]int) {
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		r[x][y] = (t + 1) * (t + 2) / 2 % 64
		x, y = y, (2*x+3*y)%5
	}
	return
}()

var rcs = func() (rc [24]uint64) {
	lfsr := byte(1)
	for i := range rc {
		for j := 0; j < 7; j++ {
			if lfsr&1 != 0 {
				rc[i] |= 1 << (1<<j - 1)
			}
			hi := lfsr & 0x80
			lfsr <<= 1
			if hi != 0 {
				lfsr ^= 0x71
			}
		}
	}
	return
}()

func permute(a *[5][5]uint64) {
	for r := 0; r < 24; r++ {
		var c [5]uint64
		for x := range c {
			c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]
		}
		for x := range c {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := range a[x] {
				a[x][y] ^= d
			}
		}
		var b [5][5]uint64
		for x := range a {
			for y := range a[x] {
				b[y][(2*x+3*y)%5] = bits.RotateLeft64(a[x][y], rot[x][y])
			}
		}
		for x := range a {
			for y := range a[x] {
				a[x][y] = b[x][y] ^ (^b[(x+1)%5][y] & b[(x+2)%5][y])
			}
		}
		a[0][0] ^= rcs[r]
	}
}

var algs = []struct {
	size int
	mk   func() hash.Hash
}{{28, sha3.NewKeccak224}, {32, sha3.NewKeccak256}, {48, sha3.NewKeccak384}, {64, sha3.NewKeccak512}}

func msgLen(t *rapid.T, rate int) int {
	switch rapid.IntRange(0, 3).Draw(t, "lk") {
	case 0:
		return vh.Len(t, 700, "len")
	case 1: // around block boundaries
		n := rate*rapid.IntRange(0, 4).Draw(t, "blocks") + rapid.IntRange(-9, 9).Draw(t, "off")
		return max(n, 0)
	case 2:
		return rapid.IntRange(0, 24).Draw(t, "short")
	}
	return rapid.IntRange(0, 2*rate).Draw(t, "len2")
}

func TestDigest(t *testing.T) {
	vh.Run(t, vh.Opt{N: 12000, Rule: "messages of up to ~4 blocks, all four sizes, random chunkings, compared with a transcription of the specification and (256, 512) with x/crypto; non-trivial: non-empty message"}, func(c *vh.C) {
		al := algs[rapid.IntRange(0, 3).Draw(c.T, "alg")]
		rate := 200 - 2*al.size
		msg := vh.Raw(c.T, msgLen(c.T, rate), "msg")
		want := ref(al.size, msg)
		switch al.size {
		case 32:
			h := xsha3.NewLegacyKeccak256()
			h.Write(msg)
			if !bytes.Equal(h.Sum(nil), want) {
				panic("reference disagrees with x/crypto")
			}
			if got := randentropy.Sha3(append([]byte{}, msg...)); !bytes.Equal(got, want) {
				c.Fatalf("Sha3(%x) = %x, want %x", msg, got, want)
			}
		case 64:
			h := xsha3.NewLegacyKeccak512()
			h.Write(msg)
			if !bytes.Equal(h.Sum(nil), want) {
				panic("reference disagrees with x/crypto")
			}
		}
		h := al.mk()
		if h.Size() != al.size || h.BlockSize() != rate {
			c.Fatalf("Size, BlockSize = %d, %d, want %d, %d", h.Size(), h.BlockSize(), al.size, rate)
		}
		in := append([]byte{}, msg...)
		var cuts []int
		for rest := in; ; {
			n := len(rest)
			switch rapid.IntRange(0, 4).Draw(c.T, "ck") {
			case 0:
				n = min(n, rapid.IntRange(0, 9).Draw(c.T, "cut"))
			case 1:
				n = min(n, 8*rapid.IntRange(0, 20).Draw(c.T, "cut8"))
			case 2:
				n = min(n, rate+rapid.IntRange(-8, 8).Draw(c.T, "cutr"))
			case 3:
				n = min(n, vh.Len(c.T, 300, "cutl"))
			}
			cuts = append(cuts, n)
			k, err := h.Write(rest[:n])
			if k != n || err != nil {
				c.Fatalf("Write of %d bytes = %d, %v", n, k, err)
			}
			rest = rest[n:]
			if len(rest) == 0 {
				break
			}
		}
		c.Note(len(msg) > 0, "%d: %d bytes %x in %v", al.size*8, len(msg), head(msg), cuts)
		if got := h.Sum(nil); !bytes.Equal(got, want) {
			c.Fatalf("Keccak-%d of %x written as %v = %x, want %x", al.size*8, msg, cuts, got, want)
		}
		if !bytes.Equal(in, msg) {
			c.Fatalf("Write changed its argument")
		}
	})
}

func head(b []byte) []byte { return b[:min(len(b), 40)] }

func TestHistory(t *testing.T) {
	vh.Run(t, vh.Opt{N: 12000, Rule: "histories of Write, Sum (with prefixes of any length and spare capacity) and Reset on one hash; non-trivial: a write after a sum or a reset"}, func(c *vh.C) {
		al := algs[rapid.IntRange(0, 3).Draw(c.T, "alg")]
		h := al.mk()
		var msg []byte
		var ops []string
		type sum struct{ got, want []byte }
		var sums []sum
		summed, again := false, false
		fail := func(format string, args ...any) {
			c.Fatalf("Keccak-%d: %s\nafter: %s", al.size*8, fmt.Sprintf(format, args...), strings.Join(ops, "; "))
		}
		for i := rapid.IntRange(1, 12).Draw(c.T, "n"); i > 0; i-- {
			switch rapid.SampledFrom([]string{"write", "write", "write", "sum", "sum", "reset"}).Draw(c.T, "op") {
			case "write":
				n := vh.Len(c.T, 160, "n")
				p := vh.Raw(c.T, n, "p")
				ops = append(ops, fmt.Sprintf("Write(%x)", p))
				msg = append(msg, p...)
				if k, err := h.Write(p); k != n || err != nil {
					fail("Write = %d, %v", k, err)
				}
				for i := range p { // the buffer is the caller's again
					p[i] ^= 0xff
				}
				again = again || summed
			case "sum":
				pre := vh.Bytes(c.T, 40, "pre")
				spare := rapid.IntRange(0, 90).Draw(c.T, "spare")
				in := make([]byte, len(pre), len(pre)+spare)
				copy(in, pre)
				ops = append(ops, fmt.Sprintf("Sum(%x cap+%d)", pre, spare))
				want := append(append([]byte{}, pre...), ref(al.size, msg)...)
				got := h.Sum(in)
				if !bytes.Equal(got, want) {
					fail("Sum = %x, want %x", got, want)
				}
				sums = append(sums, sum{got, want})
				if !bytes.Equal(in, pre) {
					fail("Sum changed the prefix")
				}
				summed = true
			case "reset":
				ops = append(ops, "Reset")
				h.Reset()
				msg = nil
				summed = true
			}
		}
		if got, want := h.Sum(nil), ref(al.size, msg); !bytes.Equal(got, want) {
			fail("final Sum = %x, want %x", got, want)
		}
		for i, s := range sums {
			if !bytes.Equal(s.got, s.want) {
				fail("result %d of Sum was %x, later it reads %x", i, s.want, s.got)
			}
		}
		c.Note(again, "%d %s", al.size, strings.Join(ops, "; "))
	})
}

func TestLong(t *testing.T) {
	vh.Run(t, vh.Opt{N: 150, Max: 3000, Rule: "messages of up to 64 KiB in few writes; non-trivial: all"}, func(c *vh.C) {
		al := algs[rapid.IntRange(0, 3).Draw(c.T, "alg")]
		n := rapid.IntRange(1000, 65536).Draw(c.T, "len")
		msg := vh.Raw(c.T, n, "msg")
		cut := rapid.IntRange(0, n).Draw(c.T, "cut")
		c.Note(true, "%d: %d bytes cut at %d", al.size, n, cut)
		h := al.mk()
		h.Write(msg[:cut])
		h.Write(msg[cut:])
		if got, want := h.Sum(nil), ref(al.size, msg); !bytes.Equal(got, want) {
			c.Fatalf("Keccak-%d of %d bytes cut at %d = %x, want %x", al.size*8, n, cut, got, want)
		}
	})
}
