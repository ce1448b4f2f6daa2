// Package c01 checks property C01: hex byte strings.
package c01

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"flychain/common/hexutil"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

// refEncode is the definition: "0x" and two lowercase digits per byte.
func refEncode(b []byte) string {
	var sb strings.Builder
	sb.WriteString("0x")
	for _, c := range b {
		sb.WriteByte("0123456789abcdef"[c/16])
		sb.WriteByte("0123456789abcdef"[c%16])
	}
	return sb.String()
}

func isHexDigit(c byte) bool { return strings.IndexByte("0123456789abcdefABCDEF", c) >= 0 }

func hasPrefix(s string) bool { return strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") }

// faults lists everything wrong with s as a hex byte string.
func faults(s string, plain, needPrefix bool) map[error]bool {
	f := map[error]bool{}
	if s == "" {
		if plain {
			f[hexutil.ErrEmptyString] = true
		}
		return f
	}
	d := s
	if hasPrefix(s) {
		d = s[2:]
	} else if needPrefix {
		f[hexutil.ErrMissingPrefix] = true
		return f // without the prefix nothing else is well-defined
	}
	if len(d)%2 != 0 {
		f[hexutil.ErrOddLength] = true
	}
	for i := 0; i < len(d); i++ {
		if !isHexDigit(d[i]) {
			f[hexutil.ErrSyntax] = true
		}
	}
	return f
}

func val(s string) []byte {
	d := s
	if hasPrefix(s) {
		d = s[2:]
	}
	out := []byte{}
	for i := 0; i+1 < len(d); i += 2 {
		out = append(out, byte(strings.IndexByte("0123456789abcdef", lower(d[i]))<<4|strings.IndexByte("0123456789abcdef", lower(d[i+1]))))
	}
	return out
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

// checkErr: the error must be nil exactly if there is no fault, and otherwise
// name one of the faults. JSON wraps it in an UnmarshalTypeError.
func checkErr(c *vh.C, what, in string, err error, f map[error]bool, viaJSON bool) {
	if len(f) == 0 {
		if err != nil {
			c.Fatalf("%s(%q): unexpected error %v", what, in, err)
		}
		return
	}
	if err == nil {
		c.Fatalf("%s(%q): accepted, want one of %v", what, in, f)
	}
	for e := range f {
		if viaJSON {
			var te *json.UnmarshalTypeError
			if errors.As(err, &te) && strings.Contains(err.Error(), e.Error()) {
				return
			}
		} else if errors.Is(err, e) {
			return
		}
	}
	c.Fatalf("%s(%q): error %q (%T) names none of the faults %v", what, in, err, err, f)
}

// input draws a hex-like string: valid, or with one or more faults.
func input(t *rapid.T) string {
	prefix := rapid.SampledFrom([]string{"0x", "0x", "0x", "0x", "0X", "0X", "", "x", "0", "00", "0x0x", "X0", " 0x", "1x"}).Draw(t, "prefix")
	n := vh.Len(t, 600, "digits")
	if rapid.IntRange(0, 3).Draw(t, "even") > 0 {
		n &^= 1
	}
	d := []byte(vh.Hex(t, n, "hex"))
	for i := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2}).Draw(t, "bad"); i > 0 && len(d) > 0; i-- {
		p := rapid.IntRange(0, len(d)-1).Draw(t, "pos")
		if rapid.Bool().Draw(t, "ends") {
			p = rapid.SampledFrom([]int{0, len(d) - 1}).Draw(t, "end")
		}
		d[p] = rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte("/:@G`g xX_-+.\x00\"\\\xff"))).Draw(t, "badc")
	}
	if rapid.IntRange(0, 19).Draw(t, "wild") == 0 {
		return vh.Str(t, 40, "any")
	}
	return prefix + string(d)
}

func TestRoundTrip(t *testing.T) {
	vh.Run(t, vh.Opt{N: 25000, Rule: "random byte string of 0..5000 bytes, encoded and decoded through every entry point in both prefix cases and random digit case; non-trivial: at least one byte"}, func(c *vh.C) {
		b := vh.Bytes(c.T, 5000, "b")
		orig := append([]byte(nil), b...)
		c.Note(len(b) > 0, "%x", b)
		want := refEncode(b)
		if got := hexutil.Encode(b); got != want {
			c.Fatalf("Encode(%x) = %q, want %q", b, got, want)
		}
		if got := hexutil.Bytes(b).String(); got != want {
			c.Fatalf("Bytes(%x).String() = %q", b, got)
		}
		txt, err := hexutil.Bytes(b).MarshalText()
		if err != nil || string(txt) != want {
			c.Fatalf("Bytes(%x).MarshalText() = %q, %v", b, txt, err)
		}
		js, err := json.Marshal(hexutil.Bytes(b))
		if err != nil || string(js) != `"`+want+`"` {
			c.Fatalf("json.Marshal(Bytes(%x)) = %s, %v", b, js, err)
		}
		if !bytes.Equal(b, orig) {
			c.Fatalf("encoding changed its input")
		}
		// any prefix and digit case reads back
		s := []byte(want)
		mask := rapid.Uint64().Draw(c.T, "case")
		for i := range s {
			if s[i] >= 'a' && (i == 1 || i > 1) && mask>>(uint(i)%64)&1 == 1 {
				s[i] -= 32
			}
		}
		decodeAll(c, string(s))
	})
}

func TestAnyInput(t *testing.T) {
	vh.Run(t, vh.Opt{N: 80000, Rule: "hex-like text with random prefix, digit count, bad characters, or arbitrary text, through Decode, text, JSON, GraphQL and fixed-size parsing; non-trivial: not the empty text"}, func(c *vh.C) {
		s := input(c.T)
		c.Note(s != "", "%q", s)
		c.Class("faults=%d", len(faults(s, true, true)))
		decodeAll(c, s)
		fixed(c, s)
	})
}

func decodeAll(c *vh.C, s string) {
	plain := faults(s, true, true)
	var got []byte
	var err error
	if p := vh.Caught(func() { got, err = hexutil.Decode(s) }); p != nil {
		c.Fatalf("Decode(%q) panicked: %v", s, p)
	}
	checkErr(c, "Decode", s, err, plain, false)
	if err == nil && !bytes.Equal(got, val(s)) {
		c.Fatalf("Decode(%q) = %x, want %x", s, got, val(s))
	}
	var must []byte
	p := vh.Caught(func() { must = hexutil.MustDecode(s) })
	if (p != nil) != (len(plain) > 0) || p == nil && !bytes.Equal(must, val(s)) {
		c.Fatalf("MustDecode(%q) = %x, panic %v", s, must, p)
	}
	text := faults(s, false, true)
	for i, fn := range []struct {
		name string
		f    map[error]bool
		json bool
		call func(b *hexutil.Bytes) error
	}{
		{"Bytes.UnmarshalText", text, false, func(b *hexutil.Bytes) error { return b.UnmarshalText([]byte(s)) }},
		{"Bytes.UnmarshalJSON", text, true, func(b *hexutil.Bytes) error { return b.UnmarshalJSON([]byte(`"` + s + `"`)) }},
		{"Bytes.UnmarshalGraphQL", plain, false, func(b *hexutil.Bytes) error { return b.UnmarshalGraphQL(s) }},
	} {
		old := []byte{1, 2, 3, byte(i)}
		dst := hexutil.Bytes(append([]byte(nil), old...))
		alias := dst
		var err error
		if p := vh.Caught(func() { err = fn.call(&dst) }); p != nil {
			c.Fatalf("%s(%q) panicked: %v", fn.name, s, p)
		}
		checkErr(c, fn.name, s, err, fn.f, fn.json)
		if err == nil && !bytes.Equal(dst, val(s)) {
			c.Fatalf("%s(%q) = %x, want %x", fn.name, s, []byte(dst), val(s))
		}
		if err != nil && !bytes.Equal(dst, old) {
			c.Fatalf("%s(%q) failed but changed the destination to %x", fn.name, s, []byte(dst))
		}
		if !bytes.Equal(alias, old) {
			c.Fatalf("%s(%q) wrote into the old value's memory", fn.name, s)
		}
	}
	// through encoding/json when s needs no escaping
	if q, err := json.Marshal(s); err == nil && string(q) == `"`+s+`"` {
		var dst hexutil.Bytes
		err := json.Unmarshal(q, &dst)
		if (err == nil) != (len(text) == 0) || err == nil && !bytes.Equal(dst, val(s)) {
			c.Fatalf("json.Unmarshal(%s) = %x, %v", q, []byte(dst), err)
		}
	}
}

func fixed(c *vh.C, s string) {
	d := strings.TrimPrefix(strings.TrimPrefix(s, "0x"), "0X")
	n := rapid.SampledFrom([]int{len(d) / 2, len(d) / 2, len(d)/2 + 1, (len(d) + 1) / 2, 20, 32, 1}).Draw(c.T, "fixedlen")
	if rapid.IntRange(0, 9).Draw(c.T, "shorter") == 0 && n > 0 {
		n--
	}
	typ := reflect.TypeOf([7]byte{})
	for _, fn := range []struct {
		name   string
		prefix bool
		json   bool
		call   func(in, out []byte) error
	}{
		{"UnmarshalFixedText", true, false, func(in, out []byte) error { return hexutil.UnmarshalFixedText("T", in, out) }},
		{"UnmarshalFixedUnprefixedText", false, false, func(in, out []byte) error { return hexutil.UnmarshalFixedUnprefixedText("T", in, out) }},
		{"UnmarshalFixedJSON", true, true, func(in, out []byte) error {
			return hexutil.UnmarshalFixedJSON(typ, append(append([]byte{'"'}, in...), '"'), out)
		}},
	} {
		f := faults(s, false, fn.prefix)
		lenBad := false
		if !f[hexutil.ErrMissingPrefix] {
			nd := len(s)
			if hasPrefix(s) {
				nd -= 2
			}
			lenBad = nd/2 != n
		}
		out := make([]byte, n)
		for i := range out {
			out[i] = byte(0xA5 ^ i)
		}
		old := append([]byte(nil), out...)
		in := []byte(s)
		err := fn.call(in, out)
		switch {
		case lenBad:
			if err == nil {
				c.Fatalf("%s(%q, %d bytes): accepted, want a length error", fn.name, s, n)
			}
			named := strings.Contains(err.Error(), "length") && strings.Contains(err.Error(), fmt.Sprint(n*2))
			for e := range f {
				named = named || strings.Contains(err.Error(), e.Error())
			}
			if !named {
				c.Fatalf("%s(%q, %d bytes): error %q does not name the length fault", fn.name, s, n, err)
			}
		default:
			checkErr(c, fn.name, s, err, f, fn.json)
		}
		if err != nil && !bytes.Equal(out, old) {
			c.Fatalf("%s(%q, %d bytes) failed with %v but changed the destination to %x", fn.name, s, n, err, out)
		}
		if err == nil && !bytes.Equal(out, val(s)) {
			c.Fatalf("%s(%q) = %x, want %x", fn.name, s, out, val(s))
		}
		if string(in) != s {
			c.Fatalf("%s changed its input", fn.name)
		}
	}
}

func TestNonString(t *testing.T) {
	vh.Run(t, vh.Opt{N: 10000, Rule: "JSON values and byte strings that are not JSON strings, and GraphQL values that are not strings; all non-trivial"}, func(c *vh.C) {
		in := rapid.OneOf(
			rapid.SampledFrom([]string{"", `"`, "null", "true", "1", "{}", "[]", `{"a":"0x01"}`, `["0x01"]`, "0x01", `"0x01`, `0x01"`, "'0x01'"}),
			rapid.Custom(func(t *rapid.T) string { return "x" + hex.EncodeToString(vh.Bytes(t, 20, "h")) }),
			rapid.Custom(func(t *rapid.T) string { return fmt.Sprint(vh.U64(t, "n")) }),
			rapid.Custom(func(t *rapid.T) string { return `"` + vh.Hex(t, vh.Len(t, 20, "n"), "h") }),
		).Draw(c.T, "in")
		c.Note(true, "%q", in)
		if len(in) >= 2 && in[0] == '"' && in[len(in)-1] == '"' {
			return
		}
		gname := rapid.OneOf(rapid.SampledFrom([]string{"Bytes", "Bytes32", "BigInt", "Byte", "bytes", "", "String"}), rapid.String()).Draw(c.T, "gname")
		if (hexutil.Bytes{}).ImplementsGraphQLType(gname) != (gname == "Bytes") {
			c.Fatalf("ImplementsGraphQLType(%q) is wrong", gname)
		}
		dst := hexutil.Bytes{9, 8}
		out := []byte{7, 7}
		for name, err := range map[string]error{
			"Bytes.UnmarshalJSON": dst.UnmarshalJSON([]byte(in)),
			"UnmarshalFixedJSON":  hexutil.UnmarshalFixedJSON(reflect.TypeOf(dst), []byte(in), out),
		} {
			var te *json.UnmarshalTypeError
			if !errors.As(err, &te) || !strings.Contains(err.Error(), "non-string") {
				c.Fatalf("%s(%q): error %v, want a non-string error", name, in, err)
			}
		}
		for _, v := range []any{nil, 1, int32(5), 1.5, true, []byte("0x01"), map[string]any{}, []any{"0x01"}} {
			if err := dst.UnmarshalGraphQL(v); err == nil {
				c.Fatalf("UnmarshalGraphQL(%T) accepted", v)
			}
		}
		if !bytes.Equal(dst, []byte{9, 8}) || !bytes.Equal(out, []byte{7, 7}) {
			c.Fatalf("a rejected value changed the destination: %x %x", []byte(dst), out)
		}
	})
}
