// Package c18 checks property C18: key generation, point encoding, entropy.
package c18

import (
	"bytes"
	"crypto/rand"
	"errors"
	"io"
	"math/big"
	"testing"

	"flychain/crypto"
	"flychain/crypto/randentropy"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

var curves = []struct {
	name string
	c    *crypto.BitCurve
	n    int // byte length
}{{"S160", crypto.S160(), 20}, {"S192", crypto.S192(), 24}, {"S224", crypto.S224(), 28}, {"S256", crypto.S256(), 32}}

// source delivers data in the given chunk sizes, then fails with err.
type source struct {
	data   []byte
	chunks []int
	err    error
	withN  bool // deliver the error together with the last bytes
	used   int
	reads  int
}

func (s *source) Read(p []byte) (int, error) {
	if s.used == len(s.data) {
		return 0, s.err
	}
	n := len(p)
	if len(s.chunks) > 0 {
		n = min(n, s.chunks[s.reads%len(s.chunks)])
	}
	s.reads++
	n = copy(p[:n], s.data[s.used:])
	s.used += n
	if s.withN && s.used == len(s.data) {
		return n, s.err
	}
	return n, nil
}

func inf(x, y *big.Int) bool { return x == nil || x.Sign() == 0 && y.Sign() == 0 }

func TestGenerateKey(t *testing.T) {
	boom := errors.New("boom")
	vh.Run(t, vh.Opt{N: 600, Rule: "entropy streams delivered in chunks of any size, failing at any byte, with candidates that give no key (zero, the order) in front; non-trivial: all"}, func(c *vh.C) {
		k := curves[rapid.IntRange(0, 3).Draw(c.T, "curve")]
		var chunks []int
		if rapid.Bool().Draw(c.T, "chunked") {
			chunks = rapid.SliceOfN(rapid.IntRange(1, 40), 1, 4).Draw(c.T, "chunks")
		}
		// how entropy maps to the private key, found by experiment
		probe := bytes.Repeat([]byte{0xA7}, k.n)
		p0, _, _, err := k.c.GenerateKey(&source{data: probe, err: io.EOF})
		if err != nil || len(p0) != k.n {
			c.Fatalf("%s: key from a fixed source: %d bytes, %v", k.name, len(p0), err)
		}
		ent := func(key []byte) []byte {
			e := make([]byte, k.n)
			for i := range e {
				e[i] = key[i] ^ p0[i] ^ probe[i]
			}
			return e
		}
		var data []byte
		bad := rapid.IntRange(-1, 2).Draw(c.T, "bad")
		for i := 0; i < bad; i++ {
			cand := make([]byte, k.n)
			if len(k.c.N.Bytes()) == k.n && rapid.Bool().Draw(c.T, "order") {
				k.c.N.FillBytes(cand)
			}
			data = append(data, ent(cand)...)
		}
		if bad < 0 {
			bad = 0
		}
		good := vh.Raw(c.T, k.n, "key")
		v := new(big.Int).SetBytes(good)
		if v.Mod(v, k.c.N).Sign() == 0 {
			good[k.n-1] |= 1
		}
		data = append(data, ent(good)...)
		failAt := -1
		if rapid.IntRange(0, 2).Draw(c.T, "fails") == 0 {
			failAt = rapid.IntRange(0, len(data)-1).Draw(c.T, "at")
		}
		src := &source{data: append([]byte{}, data...), chunks: chunks, err: boom, withN: rapid.Bool().Draw(c.T, "withn")}
		if failAt >= 0 {
			src.data = src.data[:failAt]
		} else if extra := rapid.IntRange(0, 3).Draw(c.T, "extra"); extra > 0 {
			src.data = append(src.data, vh.Raw(c.T, extra*k.n/2, "more")...)
		}
		c.Note(true, "%s key %x after %d useless, chunks %v, fails at %d", k.name, good, bad, chunks, failAt)
		earlier := append([]byte{}, p0...)
		priv, x, y, err := k.c.GenerateKey(src)
		if !bytes.Equal(earlier, p0) {
			c.Fatalf("%s: generating another key changed an earlier private key from %x to %x", k.name, earlier, p0)
		}
		if failAt >= 0 {
			if err == nil {
				c.Fatalf("%s: no error although the source failed at byte %d of %d", k.name, failAt, len(data))
			}
			if !errors.Is(err, boom) && !errors.Is(err, io.ErrUnexpectedEOF) {
				c.Fatalf("%s: error %v, want the source's", k.name, err)
			}
			if x != nil || y != nil {
				c.Fatalf("%s: a public key is returned along with error %v", k.name, err)
			}
			return
		}
		if err != nil {
			c.Fatalf("%s: error %v although the source delivered %d bytes", k.name, err, len(data))
		}
		if src.used != len(data) {
			c.Fatalf("%s: %d bytes of entropy used, want %d", k.name, src.used, len(data))
		}
		if !bytes.Equal(priv, good) {
			c.Fatalf("%s: private key %x does not carry the entropy (want %x)", k.name, priv, good)
		}
		if inf(x, y) || !k.c.IsOnCurve(x, y) {
			c.Fatalf("%s: the public key (%x,%x) of %x is not a point of the curve", k.name, x, y, priv)
		}
		wx, wy := k.c.ScalarBaseMult(good)
		if wx.Cmp(x) != 0 || wy.Cmp(y) != 0 {
			c.Fatalf("%s: public key (%x,%x) is not %x*G", k.name, x, y, priv)
		}
		// the key is the caller's: wiping it changes no key made later
		for i := range priv {
			priv[i] = 0
		}
		x.SetInt64(0)
		y.SetInt64(0)
		priv, x, y, err = k.c.GenerateKey(&source{data: append([]byte{}, data...), err: boom})
		if err != nil || !bytes.Equal(priv, good) || wx.Cmp(x) != 0 || wy.Cmp(y) != 0 {
			c.Fatalf("%s: the same entropy again gives key %x (%x,%x), %v, want %x", k.name, priv, x, y, err, good)
		}
	})
}

func TestMarshal(t *testing.T) {
	vh.Run(t, vh.Opt{N: 20000, Rule: "coordinates of any width (leading zeros, zero), byte strings of any length and tag; non-trivial: all"}, func(c *vh.C) {
		k := curves[rapid.IntRange(0, 3).Draw(c.T, "curve")]
		x, y := vh.Big(c.T, 8*k.n, "x"), vh.Big(c.T, 8*k.n, "y")
		xs, ys := new(big.Int).Set(x), new(big.Int).Set(y)
		want := make([]byte, 1+2*k.n)
		want[0] = 4
		x.FillBytes(want[1 : 1+k.n])
		y.FillBytes(want[1+k.n:])
		c.Note(true, "%s (%x,%x)", k.name, x, y)
		got := k.c.Marshal(x, y)
		if !bytes.Equal(got, want) {
			c.Fatalf("%s: Marshal(%x,%x) = %x, want %x", k.name, x, y, got, want)
		}
		if x.Cmp(xs) != 0 || y.Cmp(ys) != 0 {
			c.Fatalf("%s: Marshal changed its arguments", k.name)
		}
		in := append([]byte{}, want...)
		gx, gy := k.c.Unmarshal(in)
		if gx == nil || gy == nil || gx.Cmp(x) != 0 || gy.Cmp(y) != 0 {
			c.Fatalf("%s: Unmarshal(%x) = (%v,%v)", k.name, want, gx, gy)
		}
		for i := range in { // the result does not depend on the buffer any more
			in[i] ^= 0xff
		}
		if gx.Cmp(x) != 0 || gy.Cmp(y) != 0 {
			c.Fatalf("%s: the unmarshalled point shares memory with the input", k.name)
		}
		var bad []byte
		switch rapid.IntRange(0, 4).Draw(c.T, "bad") {
		case 0:
			bad = append([]byte{}, want...)
			bad[0] = rapid.Byte().Filter(func(b byte) bool { return b != 4 }).Draw(c.T, "tag")
		case 1:
			bad = want[:len(want)-rapid.IntRange(1, len(want)).Draw(c.T, "cut")]
		case 2:
			bad = append(append([]byte{}, want...), make([]byte, rapid.IntRange(1, 40).Draw(c.T, "more"))...)
		case 3: // another curve's length, or compressed forms
			bad = make([]byte, rapid.SampledFrom([]int{1 + k.n, 2 * k.n, 3 + 2*k.n, 41, 49, 57, 65}).Draw(c.T, "len"))
			bad[0] = rapid.SampledFrom([]byte{2, 3, 4}).Draw(c.T, "tag")
			if len(bad) == 1+2*k.n && bad[0] == 4 {
				return
			}
		default:
			bad = vh.Bytes(c.T, 70, "raw")
			if len(bad) == 1+2*k.n && bad[0] == 4 {
				return
			}
		}
		if gx, gy := k.c.Unmarshal(bad); gx != nil || gy != nil {
			c.Fatalf("%s: Unmarshal(%x) = (%v,%v), want nothing", k.name, bad, gx, gy)
		}
	})
}

func TestEntropyFixed(t *testing.T) {
	vh.Run(t, vh.Opt{N: 5000, Rule: "the system source replaced by one that delivers known bytes in chunks; non-trivial: at least one byte asked for"}, func(c *vh.C) {
		n := vh.Len(c.T, 200, "n")
		data := vh.Raw(c.T, n+5, "data")
		src := &source{data: append([]byte{}, data...), chunks: rapid.SliceOfN(rapid.IntRange(1, 40), 1, 4).Draw(c.T, "chunks"), err: errors.New("dry")}
		old := rand.Reader
		rand.Reader = src
		defer func() { rand.Reader = old }()
		c.Note(n > 0, "%d bytes in chunks %v", n, src.chunks)
		if rapid.Bool().Draw(c.T, "reader") {
			buf := bytes.Repeat([]byte{0x5a}, n+3)
			k, err := randentropy.Reader.Read(buf[:n])
			if k != n || err != nil {
				c.Fatalf("Read of %d bytes = %d, %v", n, k, err)
			}
			if !bytes.Equal(buf[:n], data[:n]) || !bytes.Equal(buf[n:], []byte{0x5a, 0x5a, 0x5a}) {
				c.Fatalf("Read of %d bytes delivered %x, the source had %x", n, buf, data)
			}
			return
		}
		got := randentropy.GetEntropyCSPRNG(n)
		if !bytes.Equal(got, data[:n]) || len(got) != n {
			c.Fatalf("GetEntropyCSPRNG(%d) = %x, the source had %x", n, got, data)
		}
		if next := randentropy.GetEntropyCSPRNG(min(n, 5)); !bytes.Equal(next, data[n:n+min(n, 5)]) || !bytes.Equal(got, data[:n]) {
			c.Fatalf("GetEntropyCSPRNG(%d) then %x, earlier bytes now %x; the source had %x", n, next, got, data)
		}
	})
}

func TestEntropyFailure(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1000, Rule: "the system source fails before enough bytes were read: no bytes may be passed off as entropy; non-trivial: all"}, func(c *vh.C) {
		n := 1 + vh.Len(c.T, 100, "n")
		have := rapid.IntRange(0, n-1).Draw(c.T, "have")
		old := rand.Reader
		rand.Reader = &source{data: make([]byte, have), err: errors.New("dry")}
		defer func() { rand.Reader = old }()
		c.Note(true, "%d of %d", have, n)
		var k int
		var err error
		p := vh.Caught(func() { k, err = randentropy.Reader.Read(make([]byte, n)) })
		if p == nil && err == nil && k == n {
			c.Fatalf("Read of %d bytes reports success although the source failed after %d", n, have)
		}
	})
}

func TestEntropySystem(t *testing.T) {
	vh.Run(t, vh.Opt{N: 300, Rule: "reads from the real system source: every byte position takes several values; non-trivial: all"}, func(c *vh.C) {
		n := rapid.IntRange(1, 64).Draw(c.T, "n")
		c.Note(true, "%d", n)
		seen := make([]map[byte]bool, n)
		for i := range seen {
			seen[i] = map[byte]bool{}
		}
		for r := 0; r < 24; r++ {
			buf := make([]byte, n)
			if k, err := io.ReadFull(randentropy.Reader, buf); k != n || err != nil {
				c.Fatalf("read %d, %v", k, err)
			}
			for i, b := range buf {
				seen[i][b] = true
			}
		}
		for i := range seen {
			if len(seen[i]) < 3 { // chance below 1e-40
				c.Fatalf("byte %d of %d took only %d values in 24 reads", i, n, len(seen[i]))
			}
		}
	})
}
