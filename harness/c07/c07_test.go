// Package c07 checks property C07: text forms of 256-bit integers.
package c07

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"flychain/common/math"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

// ref is the definition for text without a sign: the number, or ok=false.
func ref(s string) (v *big.Int, ok bool) {
	if s == "" {
		return new(big.Int), true
	}
	base, d := int64(10), s
	if strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") {
		base, d = 16, s[2:]
	}
	if d == "" {
		return nil, false
	}
	v = new(big.Int)
	for i := 0; i < len(d); i++ {
		x := strings.IndexByte("0123456789abcdef", d[i])
		if d[i] >= 'A' && d[i] <= 'F' {
			x = int(d[i]-'A') + 10
		}
		if x < 0 || int64(x) >= base {
			return nil, false
		}
		v.Mul(v, big.NewInt(base)).Add(v, big.NewInt(int64(x)))
	}
	return v, v.BitLen() <= 256
}

func text(t *rapid.T) string {
	if rapid.IntRange(0, 19).Draw(t, "wild") == 0 {
		return vh.Str(t, 30, "any")
	}
	var d string
	hexa := rapid.Bool().Draw(t, "hex")
	v := vh.Big(t, 264, "v")
	if rapid.IntRange(0, 3).Draw(t, "edge") == 0 {
		v = new(big.Int).Lsh(big.NewInt(1), 256)
		v.Add(v, big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, "d"))))
	}
	if hexa {
		d = v.Text(16)
		if rapid.Bool().Draw(t, "upper") {
			d = strings.ToUpper(d)
		}
	} else {
		d = v.String()
	}
	if rapid.IntRange(0, 3).Draw(t, "lead") == 0 {
		d = strings.Repeat("0", rapid.IntRange(1, 80).Draw(t, "zeros")) + d
	}
	b := []byte(d)
	if rapid.IntRange(0, 3).Draw(t, "bad") == 0 {
		b[rapid.IntRange(0, len(b)-1).Draw(t, "pos")] = rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte("/:@G`gxX_ .eE,aAfF"))).Draw(t, "c")
	}
	p := ""
	if hexa {
		p = rapid.SampledFrom([]string{"0x", "0x", "0X", "", "x", "0b", "0o", "00x", "0x0x", "0x_"}).Draw(t, "p")
	} else {
		p = rapid.SampledFrom([]string{"", "", "", "0x", "0b", "0o", " ", "_"}).Draw(t, "p")
	}
	return p + string(b)
}

func signed(s string) bool { return strings.ContainsAny(s, "+-") }

func TestParse(t *testing.T) {
	vh.Run(t, vh.Opt{N: 60000, Rule: "decimal and hex numbers around 256 bits with leading zeros, foreign prefixes and bad characters, plus arbitrary text; non-trivial: not empty"}, func(c *vh.C) {
		s := text(c.T)
		if signed(s) {
			return // the property is about unsigned text
		}
		want, ok := ref(s)
		c.Note(s != "", "%q", s)
		c.Class("ok=%v", ok)
		got, gok := math.ParseBig256(s)
		if gok != ok || ok && got.Cmp(want) != 0 {
			c.Fatalf("ParseBig256(%q) = %v, %v; want %v, %v", s, got, gok, want, ok)
		}
		old := vh.Big(c.T, 256, "old")
		hd, dd := math.HexOrDecimal256(*new(big.Int).Set(old)), math.Decimal256(*new(big.Int).Set(old))
		hd0, dd0 := hd, dd // copies made earlier, as a caller keeping the last value would
		e1, e2 := hd.UnmarshalText([]byte(s)), dd.UnmarshalText([]byte(s))
		if (*big.Int)(&hd0).Cmp(old) != 0 || (*big.Int)(&dd0).Cmp(old) != 0 {
			c.Fatalf("reading %q over %v changed copies of the old value to %v, %v", s, old, (*big.Int)(&hd0), (*big.Int)(&dd0))
		}
		w := want
		if !ok {
			w = old
		}
		if (e1 == nil) != ok || (*big.Int)(&hd).Cmp(w) != 0 {
			c.Fatalf("HexOrDecimal256.UnmarshalText(%q) over %v = %v, %v; want %v", s, old, (*big.Int)(&hd), e1, w)
		}
		if (e2 == nil) != ok || (*big.Int)(&dd).Cmp(w) != 0 {
			c.Fatalf("Decimal256.UnmarshalText(%q) over %v = %v, %v; want %v", s, old, (*big.Int)(&dd), e2, w)
		}
		q, err := json.Marshal(s)
		var same string
		if err != nil || json.Unmarshal(q, &same) != nil || same != s {
			return
		}
		hd, dd = math.HexOrDecimal256(*new(big.Int).Set(old)), math.Decimal256(*new(big.Int).Set(old))
		e1, e2 = json.Unmarshal(q, &hd), json.Unmarshal(q, &dd)
		if (e1 == nil) != ok || (*big.Int)(&hd).Cmp(w) != 0 || (e2 == nil) != ok || (*big.Int)(&dd).Cmp(w) != 0 {
			c.Fatalf("JSON %s over %v = %v, %v / %v, %v; want %v", q, old, (*big.Int)(&hd), e1, (*big.Int)(&dd), e2, w)
		}
	})
}

func TestRoundTrip(t *testing.T) {
	vh.Run(t, vh.Opt{N: 30000, Rule: "integers of up to 256 bits written and read back as text and JSON; non-trivial: above 9"}, func(c *vh.C) {
		v := vh.Big(c.T, 256, "v")
		c.Note(v.BitLen() > 3, "%v", v)
		keep := new(big.Int).Set(v)
		h, d := (*math.HexOrDecimal256)(v), (*math.Decimal256)(v)
		ht, e1 := h.MarshalText()
		dt, e2 := d.MarshalText()
		if e1 != nil || e2 != nil || string(ht) != "0x"+v.Text(16) || string(dt) != v.String() || d.String() != v.String() {
			c.Fatalf("%v marshals to %q, %q, %q; %v %v", v, ht, dt, d.String(), e1, e2)
		}
		js, err := json.Marshal(map[string]any{"h": h, "d": d})
		if err != nil || string(js) != fmt.Sprintf(`{"d":"%v","h":"%#x"}`, v, v) {
			c.Fatalf("json of %v = %s, %v", v, js, err)
		}
		var back struct {
			H math.HexOrDecimal256
			D math.Decimal256
		}
		if err := json.Unmarshal(js, &back); err != nil || (*big.Int)(&back.H).Cmp(v) != 0 || (*big.Int)(&back.D).Cmp(v) != 0 {
			c.Fatalf("%s read back as %v, %v (%v)", js, (*big.Int)(&back.H), (*big.Int)(&back.D), err)
		}
		if v.Cmp(keep) != 0 {
			c.Fatalf("marshalling changed its receiver")
		}
		var nh *math.HexOrDecimal256
		var nd *math.Decimal256
		ht, e1 = nh.MarshalText()
		dt, e2 = nd.MarshalText()
		if string(ht) != "0x0" || string(dt) != "0" || nd.String() != "0" || e1 != nil || e2 != nil {
			c.Fatalf("nil values marshal to %q, %q", ht, dt)
		}
		neg := math.Decimal256(*new(big.Int).Neg(v))
		var nback math.Decimal256
		dt, e1 = neg.MarshalText()
		if e2 = nback.UnmarshalText(dt); e1 != nil || e2 != nil || neg.String() != new(big.Int).Neg(v).String() || string(dt) != neg.String() || (*big.Int)(&nback).Cmp((*big.Int)(&neg)) != 0 {
			c.Fatalf("-%v is written as %q, %q and read back as %v (%v %v)", v, neg.String(), dt, (*big.Int)(&nback), e1, e2)
		}
		x := rapid.Int64().Draw(c.T, "x")
		if (*big.Int)(math.NewHexOrDecimal256(x)).Int64() != x || (*big.Int)(math.NewDecimal256(x)).Int64() != x {
			c.Fatalf("constructors lose %d", x)
		}
	})
}
