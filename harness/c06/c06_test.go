// Package c06 checks property C06: 256-bit arithmetic.
package c06

import (
	"bytes"
	"math/big"
	"testing"

	"flychain/common"
	"flychain/common/math"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

var (
	two256 = new(big.Int).Exp(big.NewInt(2), big.NewInt(256), nil)
	two255 = new(big.Int).Exp(big.NewInt(2), big.NewInt(255), nil)
)

func signed(c *vh.C, bits int, label string) *big.Int {
	v := vh.Big(c.T, bits, label)
	if rapid.IntRange(0, 2).Draw(c.T, label+"-neg") == 0 {
		v.Neg(v)
	}
	return v
}

func mod256(v *big.Int) *big.Int { return new(big.Int).Mod(v, two256) } // Euclidean: never negative

func cp(v *big.Int) *big.Int { return new(big.Int).Set(v) }

func TestReduce(t *testing.T) {
	vh.Run(t, vh.Opt{N: 40000, Rule: "signed integers up to 600 bits, biased to powers of two and sparse values; non-trivial: outside [0,2^256) or at least 2^255"}, func(c *vh.C) {
		v := signed(c, 600, "v")
		c.Note(v.Sign() < 0 || v.BitLen() > 255, "%v", v)
		want := mod256(v)
		if got := math.U256(cp(v)); got.Cmp(want) != 0 {
			c.Fatalf("U256(%v) = %v, want %v", v, got, want)
		}
		b := math.U256Bytes(cp(v))
		if len(b) != 32 || new(big.Int).SetBytes(b).Cmp(want) != 0 {
			c.Fatalf("U256Bytes(%v) = %x", v, b)
		}
		u := cp(want)
		s := math.S256(u)
		if u.Cmp(want) != 0 {
			c.Fatalf("S256(%v) changed its argument", want)
		}
		if s.Cmp(two255) >= 0 || s.Cmp(new(big.Int).Neg(two255)) < 0 || mod256(s).Cmp(want) != 0 {
			c.Fatalf("S256(%v) = %v", want, s)
		}
	})
}

func TestExp(t *testing.T) {
	vh.Run(t, vh.Opt{N: 12000, Rule: "bases up to 300 bits (also negative) and exponents up to 300 bits; non-trivial: exponent above 1 and |base| above 1"}, func(c *vh.C) {
		base := signed(c, 300, "base")
		var e *big.Int
		if rapid.Bool().Draw(c.T, "small") {
			e = big.NewInt(int64(rapid.IntRange(0, 300).Draw(c.T, "e")))
		} else {
			e = vh.Big(c.T, 300, "e")
		}
		c.Note(e.BitLen() > 1 && base.BitLen() > 1, "%v ^ %v", base, e)
		b0, e0 := cp(base), cp(e)
		got := math.Exp(base, e)
		want := new(big.Int).Exp(mod256(base), e, two256)
		if base.Sign() >= 0 || e.Sign() == 0 {
			if got.Cmp(want) != 0 {
				c.Fatalf("Exp(%v, %v) = %v, want %v", base, e, got, want)
			}
		} else if mod256(got).Cmp(want) != 0 {
			c.Fatalf("Exp(%v, %v) = %v, want %v modulo 2^256", base, e, got, want)
		}
		if base.Cmp(b0) != 0 || e.Cmp(e0) != 0 {
			c.Fatalf("Exp(%v, %v) changed its arguments to %v, %v", b0, e0, base, e)
		}
		got.Add(got, big.NewInt(1)) // the result must be the caller's own
		if base.Cmp(b0) != 0 || e.Cmp(e0) != 0 {
			c.Fatalf("the result of Exp(%v, %v) shares memory with an argument", b0, e0)
		}
	})
}

func TestBytes(t *testing.T) {
	vh.Run(t, vh.Opt{N: 40000, Rule: "integers up to 600 bits serialised into n bytes around their size, and single bytes indexed; non-trivial: value needs at least 2 bytes"}, func(c *vh.C) {
		v := vh.Big(c.T, 600, "v")
		if rapid.IntRange(0, 3).Draw(c.T, "exact") == 0 { // exactly k full bytes
			k := rapid.IntRange(1, 40).Draw(c.T, "k")
			v.SetBytes(append([]byte{byte(rapid.IntRange(1, 255).Draw(c.T, "top"))}, vh.Raw(c.T, k-1, "low")...))
		}
		size := (v.BitLen() + 7) / 8
		n := rapid.OneOf(rapid.IntRange(0, 80), rapid.Just(size), rapid.Just(size+1), rapid.Just(max(size-1, 0)), rapid.Just(32), rapid.Just(8), rapid.Just(16)).Draw(c.T, "n")
		c.Note(size > 1, "%x %d", v, n)
		keep := cp(v)
		want := make([]byte, max(n, size))
		v.FillBytes(want)
		if got := math.PaddedBigBytes(v, n); !bytes.Equal(got, want) {
			c.Fatalf("PaddedBigBytes(%#x, %d) = %x, want %x", v, n, got, want)
		}
		low := make([]byte, n)
		copy(low, want[len(want)-n:])
		arg := v
		if rapid.Bool().Draw(c.T, "neg") {
			arg = new(big.Int).Neg(v) // the absolute value is what is read
		}
		buf := make([]byte, n+16)
		math.ReadBits(arg, buf[8:8+n])
		if !bytes.Equal(buf[8:8+n], low) || !bytes.Equal(buf[:8], make([]byte, 8)) || !bytes.Equal(buf[8+n:], make([]byte, 8)) {
			c.Fatalf("ReadBits(%#x, %d bytes) = %x, want %x", arg, n, buf, low)
		}
		i := rapid.IntRange(0, n+10).Draw(c.T, "i")
		wb := byte(0)
		if i < n {
			// byte i of the n-byte form, most significant first
			p := new(big.Int).Rsh(v, uint(8*(n-1-i)))
			wb = byte(p.Uint64())
		}
		if got := math.Byte(v, n, i); got != wb {
			c.Fatalf("Byte(%#x, %d, %d) = %#x, want %#x", v, n, i, got, wb)
		}
		if v.Cmp(keep) != 0 {
			c.Fatalf("serialisation changed its argument")
		}
	})
}

func TestMinMaxPow(t *testing.T) {
	vh.Run(t, vh.Opt{N: 30000, Rule: "pairs of signed integers, small powers, lowest set bits; non-trivial: the two integers differ"}, func(c *vh.C) {
		x, y := signed(c, 300, "x"), signed(c, 300, "y")
		switch rapid.IntRange(0, 3).Draw(c.T, "rel") {
		case 0:
			y = new(big.Int).Add(x, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(c.T, "d"))))
		case 1:
			y = new(big.Int).Neg(x)
		}
		c.Note(x.Cmp(y) != 0, "%v %v", x, y)
		lo, hi := x, y
		if x.Cmp(y) > 0 {
			lo, hi = y, x
		}
		x0, y0 := cp(x), cp(y)
		if math.BigMin(x, y).Cmp(lo) != 0 || math.BigMax(x, y).Cmp(hi) != 0 {
			c.Fatalf("BigMin/BigMax(%v, %v) = %v, %v", x, y, math.BigMin(x, y), math.BigMax(x, y))
		}
		f := math.FirstBitSet(x)
		want := x.BitLen()
		if x.Sign() != 0 {
			want = int(new(big.Int).Abs(x).TrailingZeroBits())
		}
		if f != want {
			c.Fatalf("FirstBitSet(%v) = %d, want %d", x, f, want)
		}
		if x.Cmp(x0) != 0 || y.Cmp(y0) != 0 {
			c.Fatalf("an argument changed")
		}
		a := rapid.OneOf(rapid.Int64Range(-20, 20), rapid.Int64()).Draw(c.T, "a")
		b := rapid.OneOf(rapid.Int64Range(0, 40), rapid.Int64Range(0, 300)).Draw(c.T, "b")
		w := big.NewInt(1)
		for i := int64(0); i < b; i++ {
			w.Mul(w, big.NewInt(a))
		}
		if got := math.BigPow(a, b); got.Cmp(w) != 0 {
			c.Fatalf("BigPow(%d, %d) = %v, want %v", a, b, got, w)
		}
	})
}

// TestConstants runs every operation on the published constants and checks
// that they keep their values.
func TestConstants(t *testing.T) {
	vh.Run(t, vh.Opt{N: 8000, Rule: "operations applied to the published constants, which must keep their values; non-trivial: all"}, func(c *vh.C) {
		consts := map[int64]*big.Int{0: common.Big0, 1: common.Big1, 2: common.Big2, 3: common.Big3, 32: common.Big32, 256: common.Big256, 257: common.Big257}
		k := rapid.SampledFrom([]int64{0, 1, 2, 3, 32, 256, 257}).Draw(c.T, "k")
		v := vh.Big(c.T, 300, "v")
		c.Note(true, "%d %v", k, v)
		x := consts[k]
		switch rapid.IntRange(0, 9).Draw(c.T, "max") {
		case 0:
			x = math.MaxBig256
		case 1:
			x = math.MaxBig63
		}
		math.Exp(x, v)
		math.Exp(v, x)
		math.S256(x)
		math.PaddedBigBytes(x, 32)
		math.ReadBits(x, make([]byte, 40))
		math.FirstBitSet(x)
		math.BigMax(x, v)
		math.BigMin(x, v)
		math.Byte(x, 32, 31)
		for n, b := range consts {
			if b.Cmp(big.NewInt(n)) != 0 {
				c.Fatalf("constant Big%d is now %v", n, b)
			}
		}
		if new(big.Int).Add(math.MaxBig256, big.NewInt(1)).Cmp(two256) != 0 || math.MaxBig63.Cmp(new(big.Int).SetUint64(1<<63-1)) != 0 {
			c.Fatalf("MaxBig256, MaxBig63 = %v, %v", math.MaxBig256, math.MaxBig63)
		}
		// U256 must not depend on or modify shared state
		if got := math.U256(cp(v)); got.Cmp(mod256(v)) != 0 {
			c.Fatalf("U256(%v) = %v", v, got)
		}
		w := math.U256(new(big.Int).Neg(cp(v)))
		w.Add(w, big.NewInt(7))
		if got := math.U256(cp(v)); got.Cmp(mod256(v)) != 0 {
			c.Fatalf("U256(%v) = %v after its earlier result was modified", v, got)
		}
	})
}
