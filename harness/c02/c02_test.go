// Package c02 checks property C02: hex quantities.
package c02

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/bits"
	"strings"
	"testing"

	"flychain/common/hexutil"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

func digitVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// parse is the definition of a quantity: the value, or every fault.
func parse(s string, plain bool, maxBits int, rangeErr error) (*big.Int, map[error]bool) {
	f := map[error]bool{}
	if s == "" {
		if plain {
			f[hexutil.ErrEmptyString] = true
		}
		return new(big.Int), f
	}
	if !strings.HasPrefix(s, "0x") && !strings.HasPrefix(s, "0X") {
		f[hexutil.ErrMissingPrefix] = true
		return nil, f
	}
	d := s[2:]
	if d == "" {
		f[hexutil.ErrEmptyNumber] = true
		return nil, f
	}
	if len(d) > 1 && d[0] == '0' {
		f[hexutil.ErrLeadingZero] = true
	}
	v := new(big.Int)
	for i := 0; i < len(d); i++ {
		x := digitVal(d[i])
		if x < 0 {
			f[hexutil.ErrSyntax] = true
			if len(d)*4 > maxBits {
				f[rangeErr] = true // too long and ill-formed: either fault may be named
			}
			return nil, f
		}
		v.Lsh(v, 4).Or(v, big.NewInt(int64(x)))
	}
	if v.BitLen() > maxBits || (len(f) > 0 && len(d)*4 > maxBits) {
		f[rangeErr] = true
	}
	return v, f
}

func checkErr(c *vh.C, what, in string, err error, f map[error]bool, viaJSON bool) bool {
	if len(f) == 0 {
		if err != nil {
			c.Fatalf("%s(%q): unexpected error %v", what, in, err)
		}
		return true
	}
	if err == nil {
		c.Fatalf("%s(%q): accepted, want one of %v", what, in, f)
	}
	for e := range f {
		if viaJSON {
			var te *json.UnmarshalTypeError
			if errors.As(err, &te) && strings.Contains(err.Error(), e.Error()) {
				return false
			}
		} else if errors.Is(err, e) {
			return false
		}
	}
	c.Fatalf("%s(%q): error %q (%T) names none of the faults %v", what, in, err, err, f)
	return false
}

func text(t *rapid.T) string {
	if rapid.IntRange(0, 29).Draw(t, "wild") == 0 {
		return vh.Str(t, 30, "any")
	}
	prefix := rapid.SampledFrom([]string{"0x", "0x", "0x", "0x", "0x", "0x", "0X", "0X", "", "x", "-0x", "+0x", "0", "0x0", "0x00", "0x0x", " 0x"}).Draw(t, "prefix")
	var d []byte
	switch rapid.IntRange(0, 3).Draw(t, "kind") {
	case 0:
		d = []byte(new(big.Int).SetUint64(vh.U64(t, "u")).Text(16))
	case 1:
		d = []byte(vh.Big(t, 260, "big").Text(16))
	default:
		n := rapid.OneOf(rapid.IntRange(0, 18), rapid.IntRange(14, 18), rapid.IntRange(60, 68), rapid.IntRange(0, 70)).Draw(t, "n")
		d = []byte(vh.Hex(t, n, "hex"))
		if len(d) > 0 && d[0] == '0' && rapid.IntRange(0, 4).Draw(t, "lead") > 0 {
			d[0] = rapid.SampledFrom([]byte("123456789abcdefABCDEF")).Draw(t, "first")
		}
	}
	if rapid.Bool().Draw(t, "upper") {
		d = []byte(strings.ToUpper(string(d)))
	}
	for i := rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(t, "bad"); i > 0 && len(d) > 0; i-- {
		p := rapid.IntRange(0, len(d)-1).Draw(t, "pos")
		d[p] = rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte("/:@G`g xX_-+.\x00\xff"))).Draw(t, "badc")
	}
	return prefix + string(d)
}

var allOnes = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))

func decodeAll(c *vh.C, s string) {
	jsonIn := []byte(`"` + s + `"`)
	pv, pf := parse(s, true, 64, hexutil.ErrUint64Range)
	_, tf := parse(s, false, 64, hexutil.ErrUint64Range)
	u, err := hexutil.DecodeUint64(s)
	if checkErr(c, "DecodeUint64", s, err, pf, false) && u != pv.Uint64() {
		c.Fatalf("DecodeUint64(%q) = %d", s, u)
	}
	var mu uint64
	if p := vh.Caught(func() { mu = hexutil.MustDecodeUint64(s) }); (p != nil) != (len(pf) > 0) || p == nil && mu != pv.Uint64() {
		c.Fatalf("MustDecodeUint64(%q) = %d, panic %v", s, mu, p)
	}
	const old = 77
	for name, fn := range map[string]func(*hexutil.Uint64) error{
		"Uint64.UnmarshalText":    func(x *hexutil.Uint64) error { return x.UnmarshalText([]byte(s)) },
		"Uint64.UnmarshalJSON":    func(x *hexutil.Uint64) error { return x.UnmarshalJSON(jsonIn) },
		"Uint64.UnmarshalGraphQL": func(x *hexutil.Uint64) error { return x.UnmarshalGraphQL(s) },
	} {
		x := hexutil.Uint64(old)
		err := fn(&x)
		if checkErr(c, name, s, err, tf, strings.HasSuffix(name, "JSON")) {
			v, _ := parse(s, false, 64, nil)
			if uint64(x) != v.Uint64() {
				c.Fatalf("%s(%q) = %d, want %d", name, s, x, v)
			}
		} else if x != old {
			c.Fatalf("%s(%q) failed but changed the destination to %d", name, s, x)
		}
	}
	uf := map[error]bool{}
	_, rf := parse(s, false, bits.UintSize, hexutil.ErrUintRange)
	for e := range rf {
		uf[e] = true
	}
	for name, fn := range map[string]func(*hexutil.Uint) error{
		"Uint.UnmarshalText": func(x *hexutil.Uint) error { return x.UnmarshalText([]byte(s)) },
		"Uint.UnmarshalJSON": func(x *hexutil.Uint) error { return x.UnmarshalJSON(jsonIn) },
	} {
		x := hexutil.Uint(old)
		err := fn(&x)
		if checkErr(c, name, s, err, uf, strings.HasSuffix(name, "JSON")) {
			v, _ := parse(s, false, 64, nil)
			if uint64(x) != v.Uint64() {
				c.Fatalf("%s(%q) = %d, want %d", name, s, x, v)
			}
		} else if x != old {
			c.Fatalf("%s(%q) failed but changed the destination to %d", name, s, x)
		}
	}
	bv, bf := parse(s, true, 256, hexutil.ErrBig256Range)
	b, err := hexutil.DecodeBig(s)
	if checkErr(c, "DecodeBig", s, err, bf, false) && b.Cmp(bv) != 0 {
		c.Fatalf("DecodeBig(%q) = %v, want %v", s, b, bv)
	}
	var mb *big.Int
	if p := vh.Caught(func() { mb = hexutil.MustDecodeBig(s) }); (p != nil) != (len(bf) > 0) || p == nil && mb.Cmp(bv) != 0 {
		c.Fatalf("MustDecodeBig(%q) = %v, panic %v", s, mb, p)
	}
	tv, btf := parse(s, false, 256, hexutil.ErrBig256Range)
	for name, fn := range map[string]func(*hexutil.Big) error{
		"Big.UnmarshalText":    func(x *hexutil.Big) error { return x.UnmarshalText([]byte(s)) },
		"Big.UnmarshalJSON":    func(x *hexutil.Big) error { return x.UnmarshalJSON(jsonIn) },
		"Big.UnmarshalGraphQL": func(x *hexutil.Big) error { return x.UnmarshalGraphQL(s) },
	} {
		x := hexutil.Big(*new(big.Int).Set(allOnes))
		earlier := x
		err := fn(&x)
		if earlier.ToInt().Cmp(allOnes) != 0 {
			c.Fatalf("%s(%q) changed the value held before to %v", name, s, earlier.ToInt())
		}
		if checkErr(c, name, s, err, btf, strings.HasSuffix(name, "JSON")) {
			if x.ToInt().Cmp(tv) != 0 {
				c.Fatalf("%s(%q) = %v, want %v", name, s, x.ToInt(), tv)
			}
		} else if x.ToInt().Cmp(allOnes) != 0 {
			c.Fatalf("%s(%q) failed but changed the destination to %v", name, s, x.ToInt())
		}
	}
}

func TestDecode(t *testing.T) {
	vh.Run(t, vh.Opt{N: 40000, Rule: "quantity-like text (random prefix, leading zeros, width around 64 and 256 bits, bad characters) through every decoder; non-trivial: has a prefix and at least one digit"}, func(c *vh.C) {
		s := text(c.T)
		v, f := parse(s, true, 256, hexutil.ErrBig256Range)
		c.Note(len(s) > 2, "%q", s)
		c.Class("faults=%d", len(f))
		if v != nil && v.BitLen() > 64 {
			c.Class("wide")
		}
		decodeAll(c, s)
	})
}

func TestEncode(t *testing.T) {
	vh.Run(t, vh.Opt{N: 40000, Rule: "integers of random width up to 300 bits, positive and negative, encoded and decoded back; non-trivial: more than one digit"}, func(c *vh.C) {
		u := vh.U64(c.T, "u")
		v := vh.Big(c.T, 300, "v")
		c.Note(u > 15 || v.BitLen() > 4, "%d %v", u, v)
		want := fmt.Sprintf("0x%x", u)
		txt, err := hexutil.Uint64(u).MarshalText()
		txt2, err2 := hexutil.Uint(uint(u)).MarshalText()
		js, err3 := json.Marshal(struct {
			A hexutil.Uint64
			B hexutil.Uint
			C *hexutil.Uint64
		}{hexutil.Uint64(u), hexutil.Uint(u), (*hexutil.Uint64)(&u)})
		if err != nil || err2 != nil || err3 != nil {
			c.Fatalf("marshal %d: %v %v %v", u, err, err2, err3)
		}
		for i, got := range []string{hexutil.EncodeUint64(u), string(txt), string(txt2), hexutil.Uint64(u).String(), hexutil.Uint(uint(u)).String()} {
			if got != want {
				c.Fatalf("encoding %d of %d = %q, want %q", i, u, got, want)
			}
		}
		if string(js) != fmt.Sprintf(`{"A":"%s","B":"%s","C":"%s"}`, want, want, want) {
			c.Fatalf("json of %d = %s", u, js)
		}
		decodeAll(c, want)
		decodeAll(c, "0X"+strings.ToUpper(want[2:]))
		keep := new(big.Int).Set(v)
		bw := fmt.Sprintf("%#x", v)
		btxt, err := hexutil.Big(*v).MarshalText()
		bjs, err2 := json.Marshal((*hexutil.Big)(v))
		if err != nil || err2 != nil {
			c.Fatalf("marshal %v: %v %v", v, err, err2)
		}
		for i, got := range []string{hexutil.EncodeBig(v), string(btxt), (*hexutil.Big)(v).String(), strings.Trim(string(bjs), `"`)} {
			if got != bw {
				c.Fatalf("big encoding %d of %v = %q, want %q", i, v, got, bw)
			}
		}
		decodeAll(c, bw)
		neg := new(big.Int).Neg(v)
		if got := hexutil.EncodeBig(neg); v.Sign() != 0 && got != "-"+bw {
			c.Fatalf("EncodeBig(%v) = %q, want %q", neg, got, "-"+bw)
		}
		if v.Cmp(keep) != 0 {
			c.Fatalf("encoding changed its argument")
		}
	})
}

func TestNonString(t *testing.T) {
	vh.Run(t, vh.Opt{N: 8000, Rule: "JSON that is not a string and GraphQL integers or other types; non-trivial: all"}, func(c *vh.C) {
		in := rapid.OneOf(
			rapid.SampledFrom([]string{"", `"`, "null", "true", "{}", "[]", "0x1", `"0x1`, `0x1"`, `["0x1"]`}),
			rapid.Custom(func(t *rapid.T) string { return fmt.Sprint(vh.U64(t, "n")) }),
		).Draw(c.T, "in")
		n := rapid.Int32Range(0, 1<<31-1).Draw(c.T, "i32")
		if rapid.Bool().Draw(c.T, "lit") {
			n = int32(vh.U64(c.T, "i") & (1<<31 - 1))
		}
		c.Note(true, "%q %d", in, n)
		gname := rapid.OneOf(rapid.SampledFrom([]string{"Long", "BigInt", "Bytes", "Bytes32", "Big", "long", "Uint64", "", "BigInt "}), rapid.String()).Draw(c.T, "gname")
		if hexutil.Uint64(n).ImplementsGraphQLType(gname) != (gname == "Long") || hexutil.Big(*big.NewInt(int64(n))).ImplementsGraphQLType(gname) != (gname == "BigInt") {
			c.Fatalf("ImplementsGraphQLType(%q) is wrong", gname)
		}
		a, b, d := hexutil.Uint64(5), hexutil.Uint(5), hexutil.Big(*big.NewInt(5))
		for name, err := range map[string]error{"Uint64": a.UnmarshalJSON([]byte(in)), "Uint": b.UnmarshalJSON([]byte(in)), "Big": d.UnmarshalJSON([]byte(in))} {
			var te *json.UnmarshalTypeError
			if !errors.As(err, &te) || !strings.Contains(err.Error(), "non-string") {
				c.Fatalf("%s.UnmarshalJSON(%q): error %v, want a non-string error", name, in, err)
			}
		}
		for _, v := range []any{nil, int(n), int64(n), 1.5, true, []byte("0x1")} {
			if a.UnmarshalGraphQL(v) == nil || d.UnmarshalGraphQL(v) == nil {
				c.Fatalf("UnmarshalGraphQL(%T) accepted", v)
			}
		}
		if a != 5 || b != 5 || d.ToInt().Int64() != 5 {
			c.Fatalf("a rejected value changed the destination")
		}
		if err := a.UnmarshalGraphQL(n); err != nil || uint64(a) != uint64(n) {
			c.Fatalf("Uint64.UnmarshalGraphQL(int32 %d) = %d, %v", n, a, err)
		}
		m := n
		if rapid.Bool().Draw(c.T, "neg") {
			m = -n
		}
		if err := d.UnmarshalGraphQL(m); err != nil || d.ToInt().Cmp(big.NewInt(int64(m))) != 0 {
			c.Fatalf("Big.UnmarshalGraphQL(int32 %d) = %v, %v", m, d.ToInt(), err)
		}
	})
}
