// Package c17 checks property C17: the Koblitz curves.
package c17

import (
	"fmt"
	"math/big"
	"testing"

	"flychain/crypto"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

type pt struct{ x, y *big.Int } // x == nil: infinity

func (p pt) inf() bool { return p.x == nil }
func (p pt) eq(q pt) bool {
	return p.inf() && q.inf() || !p.inf() && !q.inf() && p.x.Cmp(q.x) == 0 && p.y.Cmp(q.y) == 0
}
func (p pt) String() string {
	if p.inf() {
		return "infinity"
	}
	return fmt.Sprintf("(%x,%x)", p.x, p.y)
}

// curve is the reference: the published constants (SEC 2) and the affine
// chord-and-tangent law.
type curve struct {
	name    string
	c       *crypto.BitCurve
	p, n, b *big.Int
	g       pt
	beta    *big.Int // a cube root of unity: (x,y) -> (beta x, y) keeps the curve
	bits    int
}

func hx(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

func mk(name string, c *crypto.BitCurve, bits int, p, n string, b int64, gx, gy string) *curve {
	k := &curve{name: name, c: c, p: hx(p), n: hx(n), b: big.NewInt(b), g: pt{hx(gx), hx(gy)}, bits: bits}
	e := new(big.Int).Sub(k.p, big.NewInt(1))
	if m := new(big.Int).Mod(e, big.NewInt(3)); m.Sign() == 0 {
		e.Div(e, big.NewInt(3))
		for a := int64(2); ; a++ {
			k.beta = new(big.Int).Exp(big.NewInt(a), e, k.p)
			if k.beta.Cmp(big.NewInt(1)) != 0 {
				break
			}
		}
	}
	return k
}

var curves = func() []*curve {
	_ = firstUse // first
	return []*curve{
		mk("S160", crypto.S160(), 160, "fffffffffffffffffffffffffffffffeffffac73", "0100000000000000000001b8fa16dfab9aca16b6b3", 7, "3b4c382ce37aa192a4019e763036f4f5dd4d7ebb", "938cf935318fdced6bc28286531733c3f03c4fee"),
		mk("S192", crypto.S192(), 192, "fffffffffffffffffffffffffffffffffffffffeffffee37", "fffffffffffffffffffffffe26f2fc170f69466a74defd8d", 3, "db4ff10ec057e9ae26b07d0280b7f4341da5d1b1eae06c7d", "9b2f2f6d9c5628a7844163d015be86344082aa88d95e2f9d"),
		mk("S224", crypto.S224(), 224, "fffffffffffffffffffffffffffffffffffffffffffffffeffffe56d", "010000000000000000000000000001dce8d2ec6184caf0a971769fb1f7", 5, "a1455b334df099df30fc28a169a467e9e47075a90f7e650eb6b7a45c", "7e089fed7fba344282cafbd6f7e319f7c0b0bd59e2ca4bdb556d61a5"),
		mk("S256", crypto.S256(), 256, "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 7, "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
	}
}()

func (k *curve) neg(a pt) pt {
	if a.inf() {
		return a
	}
	y := new(big.Int).Neg(a.y)
	return pt{new(big.Int).Set(a.x), y.Mod(y, k.p)}
}

func (k *curve) add(a, b pt) pt {
	switch {
	case a.inf():
		return b
	case b.inf():
		return a
	}
	num, den := new(big.Int), new(big.Int)
	if a.x.Cmp(b.x) == 0 {
		if a.y.Cmp(b.y) != 0 || a.y.Sign() == 0 {
			return pt{}
		}
		num.Mul(a.x, a.x)
		num.Mul(num, big.NewInt(3))
		den.Lsh(a.y, 1)
	} else {
		num.Sub(b.y, a.y)
		den.Sub(b.x, a.x)
	}
	den.Mod(den, k.p)
	l := num.Mul(num, den.ModInverse(den, k.p))
	l.Mod(l, k.p)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x)
	x.Sub(x, b.x)
	x.Mod(x, k.p)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l)
	y.Sub(y, a.y)
	y.Mod(y, k.p)
	return pt{x, y}
}

func (k *curve) mul(a pt, s *big.Int) pt {
	r := pt{}
	for i := s.BitLen() - 1; i >= 0; i-- {
		r = k.add(r, r)
		if s.Bit(i) == 1 {
			r = k.add(r, a)
		}
	}
	return r
}

// lift finds the point with the first x >= from on the curve.
func (k *curve) lift(from *big.Int, odd bool) pt {
	x := new(big.Int).Mod(from, k.p)
	for {
		y2 := new(big.Int).Mul(x, x)
		y2.Mul(y2, x)
		y2.Add(y2, k.b)
		y2.Mod(y2, k.p)
		if y := new(big.Int).ModSqrt(y2, k.p); y != nil {
			if odd != (y.Bit(0) == 1) {
				y.Sub(k.p, y)
			}
			return pt{x, y}
		}
		x = x.Add(x, big.NewInt(1))
		x.Mod(x, k.p)
	}
}

func (k *curve) on(x, y *big.Int) bool {
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Exp(x, big.NewInt(3), nil)
	r.Add(r, k.b)
	l.Sub(l, r)
	return l.Mod(l, k.p).Sign() == 0
}

func (k *curve) point(t *rapid.T, label string) pt {
	switch rapid.IntRange(0, 6).Draw(t, label+"-k") {
	case 0:
		return pt{}
	case 1:
		return k.mul(k.g, big.NewInt(int64(rapid.IntRange(1, 20).Draw(t, label+"-m"))))
	case 2:
		return k.neg(k.mul(k.g, big.NewInt(int64(rapid.IntRange(1, 20).Draw(t, label+"-m")))))
	case 3: // small or large x
		x := big.NewInt(int64(rapid.IntRange(-3, 12).Draw(t, label+"-x")))
		return k.lift(x.Mod(x, k.p), rapid.Bool().Draw(t, label+"-odd"))
	}
	return k.lift(vh.Big(t, k.bits, label), rapid.Bool().Draw(t, label+"-odd"))
}

// related draws a point in a special position to p.
func (k *curve) related(t *rapid.T, p pt, label string) pt {
	endo := func(q pt) pt {
		if q.inf() || k.beta == nil {
			return q
		}
		x := new(big.Int).Mul(q.x, k.beta)
		return pt{x.Mod(x, k.p), new(big.Int).Set(q.y)}
	}
	switch rapid.IntRange(0, 9).Draw(t, label+"-r") {
	case 0, 1:
		return p
	case 2:
		return k.neg(p)
	case 3:
		return endo(p)
	case 4:
		return endo(endo(p))
	case 5:
		return k.neg(endo(p))
	case 6:
		return k.add(p, p)
	case 7:
		return k.neg(k.add(p, p))
	}
	return k.point(t, label)
}

// xy gives the library's form of a point, in fresh integers.
func (p pt) xy() (*big.Int, *big.Int) {
	if p.inf() {
		return new(big.Int), new(big.Int)
	}
	return new(big.Int).Set(p.x), new(big.Int).Set(p.y)
}

func from(x, y *big.Int) pt {
	if x == nil && y == nil || x != nil && y != nil && x.Sign() == 0 && y.Sign() == 0 {
		return pt{}
	}
	if x == nil || y == nil {
		return pt{big.NewInt(-1), big.NewInt(-1)}
	}
	return pt{x, y}
}

func same(p pt, x, y *big.Int) bool {
	a, b := p.xy()
	return a.Cmp(x) == 0 && b.Cmp(y) == 0
}

// spoil overwrites a result: it belongs to the caller, so neither the
// arguments nor the curve may be affected.
func (p pt) spoil() {
	if !p.inf() {
		p.x.Add(p.x.Lsh(p.x, 1), big.NewInt(5))
		p.y.Add(p.y.Lsh(p.y, 1), big.NewInt(5))
	}
}

func addCheck(t *testing.T, k *curve) {
	vh.Run(t, vh.Opt{N: 5000, Rule: "pairs of points: random, small multiples, infinity, and pairs in special position (equal, inverse, equal y, doubles), against the affine law; non-trivial: both finite"}, func(c *vh.C) {
		p := k.point(c.T, "p")
		q := k.related(c.T, p, "q")
		c.Note(!p.inf() && !q.inf(), "%s %v + %v", k.name, p, q)
		px, py := p.xy()
		qx, qy := q.xy()
		if rapid.IntRange(0, 3).Draw(c.T, "alias") == 0 && p.eq(q) {
			qx, qy = px, py
		}
		want := k.add(p, q)
		got := from(k.c.Add(px, py, qx, qy))
		if !got.eq(want) {
			c.Fatalf("%s: %v + %v = %v, want %v", k.name, p, q, got, want)
		}
		got.spoil()
		if !same(p, px, py) || !same(q, qx, qy) {
			c.Fatalf("%s: Add changed its arguments", k.name)
		}
		px, py = p.xy()
		got = from(k.c.Double(px, py))
		if want := k.add(p, p); !got.eq(want) {
			c.Fatalf("%s: 2*%v = %v, want %v", k.name, p, got, want)
		}
		got.spoil()
		if !same(p, px, py) {
			c.Fatalf("%s: Double changed its arguments", k.name)
		}
		k.intact(c)
	})
}

func (k *curve) intact(c *vh.C) {
	if k.c.P.Cmp(k.p) != 0 || k.c.N.Cmp(k.n) != 0 || k.c.B.Cmp(k.b) != 0 || k.c.Gx.Cmp(k.g.x) != 0 || k.c.Gy.Cmp(k.g.y) != 0 || k.c.BitSize != k.bits {
		c.Fatalf("%s: the curve constants are not the published ones: %+v", k.name, k.c)
	}
}

func (k *curve) scalar(t *rapid.T, label string) *big.Int {
	switch rapid.IntRange(0, 6).Draw(t, label+"-k") {
	case 0: // around a multiple of the order
		v := new(big.Int).Mul(k.n, big.NewInt(int64(rapid.IntRange(1, 3).Draw(t, label+"-m"))))
		v.Add(v, big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, label+"-d"))))
		return v
	case 1: // around half the order
		v := new(big.Int).Rsh(k.n, 1)
		return v.Add(v, big.NewInt(int64(rapid.IntRange(-1, 2).Draw(t, label+"-d"))))
	case 2, 3:
		return big.NewInt(int64(rapid.IntRange(0, 300).Draw(t, label)))
	case 4:
		return vh.Big(t, 40, label)
	}
	return vh.Big(t, k.bits+24, label)
}

func (k *curve) bytes(t *rapid.T, v *big.Int) []byte {
	return append(make([]byte, rapid.SampledFrom([]int{0, 0, 0, 1, 2, 9, 33}).Draw(t, "zeros")), v.Bytes()...)
}

func mulCheck(t *testing.T, k *curve) {
	vh.Run(t, vh.Opt{N: 700, Rule: "points times scalars of any byte length: small, around multiples of the order, around half of it, random beyond the field size, with leading zeros, against double-and-add over the affine law; non-trivial: finite point, scalar above one"}, func(c *vh.C) {
		p := k.point(c.T, "p")
		if rapid.IntRange(0, 2).Draw(c.T, "base") == 0 {
			p = k.g
		}
		s := k.scalar(c.T, "s")
		sb := k.bytes(c.T, s)
		c.Note(!p.inf() && s.BitLen() > 1, "%s %x * %v", k.name, sb, p)
		want := k.mul(p, s)
		px, py := p.xy()
		in := append([]byte{}, sb...)
		got := from(k.c.ScalarMult(px, py, in))
		if !got.eq(want) {
			c.Fatalf("%s: %x * %v = %v, want %v", k.name, sb, p, got, want)
		}
		got.spoil()
		if !same(p, px, py) || string(in) != string(sb) {
			c.Fatalf("%s: ScalarMult changed its arguments", k.name)
		}
		if p.eq(k.g) {
			got := from(k.c.ScalarBaseMult(in))
			if !got.eq(want) {
				c.Fatalf("%s: ScalarBaseMult(%x) = %v, want %v", k.name, sb, got, want)
			}
			got.spoil()
		}
		k.intact(c)
	})
}

func lawCheck(t *testing.T, k *curve) {
	vh.Run(t, vh.Opt{N: 500, Rule: "k*P + l*P = (k+l)*P, leading zeros, order times P, base form; non-trivial: finite point"}, func(c *vh.C) {
		p := k.point(c.T, "p")
		a, b := k.scalar(c.T, "a"), k.scalar(c.T, "b")
		c.Note(!p.inf(), "%s %x %x %v", k.name, a, b, p)
		px, py := p.xy()
		mul := func(s *big.Int) pt { return from(k.c.ScalarMult(px, py, k.bytes(c.T, s))) }
		pa, pb := mul(a), mul(b)
		ax, ay := pa.xy()
		bx, by := pb.xy()
		sum := from(k.c.Add(ax, ay, bx, by))
		if got := mul(new(big.Int).Add(a, b)); !got.eq(sum) {
			c.Fatalf("%s: (%x+%x)*P = %v, but the sum of the products is %v (P = %v)", k.name, a, b, got, sum, p)
		}
		if !pa.inf() && !k.on(pa.x, pa.y) {
			c.Fatalf("%s: %x*%v = %v is not on the curve", k.name, a, p, pa)
		}
		if !pa.inf() && (pa.x.Sign() < 0 || pa.x.Cmp(k.p) >= 0 || pa.y.Sign() < 0 || pa.y.Cmp(k.p) >= 0) {
			c.Fatalf("%s: coordinates of %v are not reduced", k.name, pa)
		}
		if got := from(k.c.ScalarBaseMult(k.bytes(c.T, a))); !got.eq(from(k.c.ScalarMult(k.c.Gx, k.c.Gy, a.Bytes()))) {
			c.Fatalf("%s: base and general form differ for %x", k.name, a)
		}
		k.intact(c)
	})
}

func onCheck(t *testing.T, k *curve) {
	vh.Run(t, vh.Opt{N: 5000, Rule: "points on the curve and their neighbours (one coordinate changed, swapped, negated, random), coordinates below P; non-trivial: all"}, func(c *vh.C) {
		p := k.point(c.T, "p")
		x, y := p.xy()
		switch rapid.IntRange(0, 6).Draw(c.T, "how") {
		case 1:
			x.Add(x, big.NewInt(1))
		case 2:
			y.Add(y, big.NewInt(1))
		case 3:
			x, y = y, x
		case 4:
			y.Sub(k.p, y)
		case 5:
			x.SetBit(x, rapid.IntRange(0, k.bits-1).Draw(c.T, "bit"), x.Bit(0))
		case 6:
			y = vh.Big(c.T, k.bits, "y")
		}
		x.Mod(x, k.p)
		y.Mod(y, k.p)
		c.Note(true, "%s (%x,%x)", k.name, x, y)
		want := k.on(x, y)
		c.Class("on curve: %v", want)
		xs, ys := new(big.Int).Set(x), new(big.Int).Set(y)
		if got := k.c.IsOnCurve(xs, ys); got != want {
			c.Fatalf("%s: IsOnCurve(%x,%x) = %v, want %v", k.name, x, y, got, want)
		}
		if xs.Cmp(x) != 0 || ys.Cmp(y) != 0 {
			c.Fatalf("%s: IsOnCurve changed its arguments", k.name)
		}
		k.intact(c)
	})
}

func TestAdd160(t *testing.T) { addCheck(t, curves[0]) }
func TestAdd192(t *testing.T) { addCheck(t, curves[1]) }
func TestAdd224(t *testing.T) { addCheck(t, curves[2]) }
func TestAdd256(t *testing.T) { addCheck(t, curves[3]) }
func TestMul160(t *testing.T) { mulCheck(t, curves[0]) }
func TestMul192(t *testing.T) { mulCheck(t, curves[1]) }
func TestMul224(t *testing.T) { mulCheck(t, curves[2]) }
func TestMul256(t *testing.T) { mulCheck(t, curves[3]) }
func TestLaw160(t *testing.T) { lawCheck(t, curves[0]) }
func TestLaw192(t *testing.T) { lawCheck(t, curves[1]) }
func TestLaw224(t *testing.T) { lawCheck(t, curves[2]) }
func TestLaw256(t *testing.T) { lawCheck(t, curves[3]) }
func TestOn160(t *testing.T)  { onCheck(t, curves[0]) }
func TestOn192(t *testing.T)  { onCheck(t, curves[1]) }
func TestOn224(t *testing.T)  { onCheck(t, curves[2]) }
func TestOn256(t *testing.T)  { onCheck(t, curves[3]) }

func TestParams(t *testing.T) {
	vh.Run(t, vh.Opt{N: 40, Max: 40, Rule: "the published parameters of each curve: primality, base point on the curve and of prime order; non-trivial: all"}, func(c *vh.C) {
		k := curves[rapid.IntRange(0, 3).Draw(c.T, "curve")]
		c.Note(true, "%s", k.name)
		k.intact(c)
		pr := k.c.Params()
		if pr.P.Cmp(k.p) != 0 || pr.N.Cmp(k.n) != 0 || pr.B.Cmp(k.b) != 0 || pr.Gx.Cmp(k.g.x) != 0 || pr.Gy.Cmp(k.g.y) != 0 || pr.BitSize != k.bits {
			c.Fatalf("%s: Params() = %+v", k.name, pr)
		}
		if !k.p.ProbablyPrime(10) || !k.n.ProbablyPrime(10) || !k.on(k.g.x, k.g.y) || !k.mul(k.g, k.n).inf() {
			panic("the reference constants are wrong")
		}
		if !k.c.IsOnCurve(k.c.Gx, k.c.Gy) {
			c.Fatalf("%s: the base point is not on the curve", k.name)
		}
		if got := from(k.c.ScalarBaseMult(k.n.Bytes())); !got.inf() {
			c.Fatalf("%s: N*G = %v", k.name, got)
		}
	})
}
