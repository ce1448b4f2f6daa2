// Package c03 checks property C03: every representation of hashes and
// addresses agrees.
package c03

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"testing/quick"

	"flychain/common"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

// fixed gives uniform access to one of the types.
type fixed struct {
	name      string
	n         int
	prefixed  bool
	fromBytes func([]byte) []byte
	fromBig   func(*big.Int) []byte
	fromHex   func(string) []byte
	setBytes  func(old, b []byte) []byte
	text      func([]byte) ([]byte, error)
	json      func([]byte) ([]byte, error)
	mapKey    func([]byte) ([]byte, error)
	fromMap   func([]byte) ([]byte, error)
	unText    func(old, in []byte) ([]byte, error)
	unJSON    func(old, in []byte) ([]byte, error)
	stdJSON   func(old, in []byte) ([]byte, error)
	gql       func(old []byte, in any) ([]byte, error)
	scan      func(old []byte, in any) ([]byte, error)
	value     func([]byte) (any, error)
	bytes     func([]byte) []byte
	big       func([]byte) *big.Int
	hexs      func([]byte) string
}

func h(b []byte) (x common.Hash)     { copy(x[:], b); return }
func ad(b []byte) (x common.Address) { copy(x[:], b); return }

var types = []fixed{
	{
		name: "Hash", n: 32, prefixed: true,
		fromBytes: func(b []byte) []byte { x := common.BytesToHash(b); return x[:] },
		fromBig:   func(b *big.Int) []byte { x := common.BigToHash(b); return x[:] },
		fromHex:   func(s string) []byte { x := common.HexToHash(s); return x[:] },
		setBytes:  func(old, b []byte) []byte { x := h(old); x.SetBytes(b); return x[:] },
		text:      func(b []byte) ([]byte, error) { return h(b).MarshalText() },
		json:      func(b []byte) ([]byte, error) { return json.Marshal(h(b)) },
		mapKey:    func(b []byte) ([]byte, error) { return json.Marshal(map[common.Hash]int{h(b): 1}) },
		fromMap: func(in []byte) ([]byte, error) {
			m := map[common.Hash]int{}
			err := json.Unmarshal(in, &m)
			for k := range m {
				return k[:], err
			}
			return nil, err
		},
		unText:  func(old, in []byte) ([]byte, error) { x := h(old); err := x.UnmarshalText(in); return x[:], err },
		unJSON:  func(old, in []byte) ([]byte, error) { x := h(old); err := x.UnmarshalJSON(in); return x[:], err },
		stdJSON: func(old, in []byte) ([]byte, error) { x := h(old); err := json.Unmarshal(in, &x); return x[:], err },
		gql:     func(old []byte, in any) ([]byte, error) { x := h(old); err := x.UnmarshalGraphQL(in); return x[:], err },
		scan:    func(old []byte, in any) ([]byte, error) { x := h(old); err := x.Scan(in); return x[:], err },
		value:   func(b []byte) (any, error) { return h(b).Value() },
		bytes:   func(b []byte) []byte { return h(b).Bytes() },
		big:     func(b []byte) *big.Int { return h(b).Big() },
		hexs:    func(b []byte) string { return h(b).Hex() },
	},
	{
		name: "Address", n: 20, prefixed: true,
		fromBytes: func(b []byte) []byte { x := common.BytesToAddress(b); return x[:] },
		fromBig:   func(b *big.Int) []byte { x := common.BigToAddress(b); return x[:] },
		fromHex:   func(s string) []byte { x := common.HexToAddress(s); return x[:] },
		setBytes:  func(old, b []byte) []byte { x := ad(old); x.SetBytes(b); return x[:] },
		text:      func(b []byte) ([]byte, error) { return ad(b).MarshalText() },
		json:      func(b []byte) ([]byte, error) { return json.Marshal(ad(b)) },
		mapKey:    func(b []byte) ([]byte, error) { return json.Marshal(map[common.Address]int{ad(b): 1}) },
		fromMap: func(in []byte) ([]byte, error) {
			m := map[common.Address]int{}
			err := json.Unmarshal(in, &m)
			for k := range m {
				return k[:], err
			}
			return nil, err
		},
		unText:  func(old, in []byte) ([]byte, error) { x := ad(old); err := x.UnmarshalText(in); return x[:], err },
		unJSON:  func(old, in []byte) ([]byte, error) { x := ad(old); err := x.UnmarshalJSON(in); return x[:], err },
		stdJSON: func(old, in []byte) ([]byte, error) { x := ad(old); err := json.Unmarshal(in, &x); return x[:], err },
		gql: func(old []byte, in any) ([]byte, error) {
			x := ad(old)
			err := x.UnmarshalGraphQL(in)
			return x[:], err
		},
		scan:  func(old []byte, in any) ([]byte, error) { x := ad(old); err := x.Scan(in); return x[:], err },
		value: func(b []byte) (any, error) { return ad(b).Value() },
		bytes: func(b []byte) []byte { return ad(b).Bytes() },
		big:   func(b []byte) *big.Int { return ad(b).Big() },
		hexs:  func(b []byte) string { return strings.ToLower(ad(b).Hex()) },
	},
	{
		name: "UnprefixedHash", n: 32,
		text: func(b []byte) ([]byte, error) { return common.UnprefixedHash(h(b)).MarshalText() },
		json: func(b []byte) ([]byte, error) { return json.Marshal(common.UnprefixedHash(h(b))) },
		mapKey: func(b []byte) ([]byte, error) {
			return json.Marshal(map[common.UnprefixedHash]int{common.UnprefixedHash(h(b)): 1})
		},
		fromMap: func(in []byte) ([]byte, error) {
			m := map[common.UnprefixedHash]int{}
			err := json.Unmarshal(in, &m)
			for k := range m {
				return k[:], err
			}
			return nil, err
		},
		unText: func(old, in []byte) ([]byte, error) {
			x := common.UnprefixedHash(h(old))
			err := x.UnmarshalText(in)
			return x[:], err
		},
		stdJSON: func(old, in []byte) ([]byte, error) {
			x := common.UnprefixedHash(h(old))
			err := json.Unmarshal(in, &x)
			return x[:], err
		},
	},
	{
		name: "UnprefixedAddress", n: 20,
		text: func(b []byte) ([]byte, error) { return common.UnprefixedAddress(ad(b)).MarshalText() },
		json: func(b []byte) ([]byte, error) { return json.Marshal(common.UnprefixedAddress(ad(b))) },
		mapKey: func(b []byte) ([]byte, error) {
			return json.Marshal(map[common.UnprefixedAddress]int{common.UnprefixedAddress(ad(b)): 1})
		},
		fromMap: func(in []byte) ([]byte, error) {
			m := map[common.UnprefixedAddress]int{}
			err := json.Unmarshal(in, &m)
			for k := range m {
				return k[:], err
			}
			return nil, err
		},
		unText: func(old, in []byte) ([]byte, error) {
			x := common.UnprefixedAddress(ad(old))
			err := x.UnmarshalText(in)
			return x[:], err
		},
		stdJSON: func(old, in []byte) ([]byte, error) {
			x := common.UnprefixedAddress(ad(old))
			err := json.Unmarshal(in, &x)
			return x[:], err
		},
	},
}

// fit keeps the rightmost n bytes or left-pads with zeros.
func fit(b []byte, n int) []byte {
	out := make([]byte, n)
	for i := 0; i < n && i < len(b); i++ {
		out[n-1-i] = b[len(b)-1-i]
	}
	return out
}

func draw(c *vh.C) fixed { return types[rapid.IntRange(0, len(types)-1).Draw(c.T, "type")] }

func TestRepresentations(t *testing.T) {
	vh.Run(t, vh.Opt{N: 25000, Rule: "a random value of one of the four fixed-size types, written and read back in every representation; non-trivial: not all zero"}, func(c *vh.C) {
		ty := draw(c)
		b := vh.Raw(c.T, ty.n, "b")
		c.Note(!bytes.Equal(b, make([]byte, ty.n)), "%s %x", ty.name, b)
		keep := append([]byte(nil), b...)
		digits := hex.EncodeToString(b)
		want := digits
		if ty.prefixed {
			want = "0x" + digits
		}
		eq := func(what string, got []byte, err error) {
			if err != nil || !bytes.Equal(got, keep) {
				c.Fatalf("%s %x via %s: got %x, %v", ty.name, keep, what, got, err)
			}
		}
		is := func(what, got, want string, err error) {
			if err != nil || got != want {
				c.Fatalf("%s %x %s: got %q, %v; want %q", ty.name, keep, what, got, err, want)
			}
		}
		txt, err := ty.text(b)
		is("MarshalText", string(txt), want, err)
		js, err := ty.json(b)
		is("json.Marshal", string(js), `"`+want+`"`, err)
		mk, err := ty.mapKey(b)
		is("JSON map key", string(mk), `{"`+want+`":1}`, err)
		got, err := ty.fromMap(mk)
		eq("JSON map key", got, err)
		old := vh.Raw(c.T, ty.n, "old")
		got, err = ty.unText(old, txt)
		eq("text", got, err)
		got, err = ty.stdJSON(old, js)
		eq("JSON", got, err)
		if !ty.prefixed {
			for _, p := range []string{"0x", "0X", ""} {
				got, err = ty.unText(old, []byte(p+strings.ToUpper(digits)))
				eq("text with prefix "+p, got, err)
			}
			return
		}
		is("Hex", ty.hexs(b), want, nil)
		eq("Bytes", ty.bytes(b), nil)
		eq("BytesTo", ty.fromBytes(ty.bytes(b)), nil)
		eq("HexTo", ty.fromHex(want), nil)
		eq("HexTo unprefixed upper", ty.fromHex(strings.ToUpper(digits)), nil)
		if v := ty.big(b); v.Cmp(new(big.Int).SetBytes(b)) != 0 {
			c.Fatalf("%s %x Big() = %v", ty.name, b, v)
		}
		eq("BigTo", ty.fromBig(ty.big(b)), nil)
		v, err := ty.value(b)
		vb, ok := v.([]byte)
		if !ok {
			c.Fatalf("%s Value() is %T", ty.name, v)
		}
		eq("Value", vb, err)
		got, err = ty.scan(old, vb)
		eq("Scan(Value)", got, err)
		got, err = ty.gql(old, want)
		eq("GraphQL", got, err)
		got, err = ty.unJSON(old, js)
		eq("UnmarshalJSON", got, err)
		if ty.name == "Address" {
			x := ad(b).Hash()
			if !bytes.Equal(x[:], fit(b, 32)) {
				c.Fatalf("Address %x Hash() = %x", b, x)
			}
		}
		if !bytes.Equal(b, keep) {
			c.Fatalf("a conversion changed its input")
		}
	})
}

func TestConstruct(t *testing.T) {
	vh.Run(t, vh.Opt{N: 30000, Rule: "byte strings, integers and hex strings of any length turned into a hash or address; non-trivial: length differs from the exact one and is not 0"}, func(c *vh.C) {
		ty := types[rapid.IntRange(0, 1).Draw(c.T, "type")]
		b := vh.Bytes(c.T, 80, "b")
		if rapid.IntRange(0, 3).Draw(c.T, "near") == 0 {
			b = vh.Raw(c.T, ty.n+rapid.IntRange(-2, 2).Draw(c.T, "d"), "b2")
		}
		c.Note(len(b) != ty.n && len(b) > 0, "%s %x", ty.name, b)
		keep := append([]byte(nil), b...)
		want := fit(b, ty.n)
		if got := ty.fromBytes(b); !bytes.Equal(got, want) {
			c.Fatalf("BytesTo%s(%x) = %x, want %x", ty.name, b, got, want)
		}
		v := new(big.Int).SetBytes(b)
		if got := ty.fromBig(v); !bytes.Equal(got, want) {
			c.Fatalf("BigTo%s(%v) = %x, want %x", ty.name, v, got, want)
		}
		digits := hex.EncodeToString(b)
		if rapid.Bool().Draw(c.T, "odd") && len(digits) > 0 && digits[0] == '0' {
			digits = digits[1:]
		}
		if rapid.Bool().Draw(c.T, "upper") {
			digits = strings.ToUpper(digits)
		}
		s := rapid.SampledFrom([]string{"", "0x", "0X"}).Draw(c.T, "prefix") + digits
		if got := ty.fromHex(s); !bytes.Equal(got, want) {
			c.Fatalf("HexTo%s(%q) = %x, want %x", ty.name, s, got, want)
		}
		// SetBytes on a zero value; on others it replaces the rightmost bytes
		if got := ty.setBytes(make([]byte, ty.n), b); !bytes.Equal(got, want) {
			c.Fatalf("%s.SetBytes(%x) = %x, want %x", ty.name, b, got, want)
		}
		if len(b) >= ty.n {
			if got := ty.setBytes(vh.Raw(c.T, ty.n, "old"), b); !bytes.Equal(got, want) {
				c.Fatalf("%s.SetBytes(%x) over an old value = %x, want %x", ty.name, b, got, want)
			}
		}
		if !bytes.Equal(b, keep) || v.Cmp(new(big.Int).SetBytes(keep)) != 0 {
			c.Fatalf("a constructor changed its input")
		}
	})
}

func TestReject(t *testing.T) {
	vh.Run(t, vh.Opt{N: 40000, Rule: "texts of nearly the right length and alphabet and database values of nearly the right length; accepted exactly when well-formed; non-trivial: all"}, func(c *vh.C) {
		ty := draw(c)
		n := 2*ty.n + rapid.SampledFrom([]int{0, 0, 0, 0, -1, 1, -2, 2, -2 * ty.n, 24, -24}).Draw(c.T, "d")
		if n < 0 {
			n = 0
		}
		d := []byte(vh.Hex(c.T, n, "hex"))
		for i := rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(c.T, "bad"); i > 0 && n > 0; i-- {
			d[rapid.IntRange(0, n-1).Draw(c.T, "pos")] = rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte("/:@G`gxX \x00"))).Draw(c.T, "c")
		}
		prefix := rapid.SampledFrom([]string{"0x", "0x", "0x", "0X", "", "x", "0"}).Draw(c.T, "prefix")
		s := prefix + string(d)
		if s == "" {
			s = "0x"
		}
		body, hasP := s, false
		if strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") {
			body, hasP = s[2:], true
		}
		ok := len(body) == 2*ty.n && (hasP || !ty.prefixed)
		for i := 0; i < len(body); i++ {
			ok = ok && strings.IndexByte("0123456789abcdefABCDEF", body[i]) >= 0
		}
		c.Note(true, "%s %q", ty.name, s)
		c.Class("%s valid=%v", ty.name, ok)
		var want []byte
		if ok {
			want, _ = hex.DecodeString(body)
		}
		old := vh.Raw(c.T, ty.n, "old")
		check := func(what string, got []byte, err error, okHere bool) {
			if okHere {
				if err != nil || !bytes.Equal(got, want) {
					c.Fatalf("%s %s(%q) = %x, %v; want %x", ty.name, what, s, got, err, want)
				}
				return
			}
			if err == nil {
				c.Fatalf("%s %s(%q) accepted as %x", ty.name, what, s, got)
			}
			if !bytes.Equal(got, old) {
				c.Fatalf("%s %s(%q) failed (%v) but changed the destination from %x to %x", ty.name, what, s, err, old, got)
			}
		}
		got, err := ty.unText(old, []byte(s))
		check("UnmarshalText", got, err, ok)
		q, _ := json.Marshal(s)
		if string(q) == `"`+s+`"` {
			got, err = ty.stdJSON(old, q)
			check("json.Unmarshal", got, err, ok)
		}
		if ty.unJSON != nil {
			got, err = ty.unJSON(old, []byte(`"`+s+`"`))
			check("UnmarshalJSON", got, err, ok)
			got, err = ty.unJSON(old, []byte(s))
			check("UnmarshalJSON unquoted", got, err, false)
			got, err = ty.gql(old, s)
			check("UnmarshalGraphQL", got, err, ok)
			got, err = ty.gql(old, []byte(s))
			check("UnmarshalGraphQL bytes", got, err, false)
			got, err = ty.gql(old, rapid.SampledFrom([]any{nil, 1, int32(4), true, 1.5, []byte{1}}).Draw(c.T, "gqlv"))
			check("UnmarshalGraphQL other", got, err, false)
			db := vh.Raw(c.T, rapid.SampledFrom([]int{ty.n, ty.n, ty.n - 1, ty.n + 1, 0, 20, 32, 64}).Draw(c.T, "dblen"), "db")
			want = db
			got, err = ty.scan(old, db)
			check(fmt.Sprintf("Scan(%x)", db), got, err, len(db) == ty.n)
			got, err = ty.scan(old, rapid.SampledFrom([]any{nil, int64(1), s, string(old), [32]byte{}, [20]byte{}, true, 1.5}).Draw(c.T, "dbv"))
			check("Scan other", got, err, false)
		}
	})
}

// TestGenerate takes hashes from the generator of testing/quick.
func TestGenerate(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1000, Rule: "hashes of testing/quick for any seed and size; non-trivial: a size above 0"}, func(c *vh.C) {
		seed := rapid.Int64().Draw(c.T, "seed")
		size := rapid.IntRange(0, 100).Draw(c.T, "size")
		c.Note(size > 0, "seed %d size %d", seed, size)
		seen, used := map[common.Hash]bool{}, [common.HashLength]bool{}
		a, b := rand.New(rand.NewSource(seed)), rand.New(rand.NewSource(seed))
		for i := 0; i < 50; i++ {
			v := (common.Hash{}).Generate(a, size)
			h, ok := v.Interface().(common.Hash)
			if !ok {
				c.Fatalf("generated %T", v.Interface())
			}
			if again := (common.Hash{}).Generate(b, size).Interface(); again != any(h) {
				c.Fatalf("one seed gives %v and %v", h, again)
			}
			if q, ok := quick.Value(reflect.TypeOf(h), a); !ok || q.Type() != reflect.TypeOf(h) {
				c.Fatalf("quick.Value gives %v, %v", q, ok)
			}
			quick.Value(reflect.TypeOf(h), b)
			seen[h] = true
			for i := range h {
				used[i] = used[i] || h[i] != 0
			}
		}
		for i := 16; i < len(used); i++ {
			if !used[i] {
				c.Fatalf("byte %d of 50 generated hashes is always zero", i)
			}
		}
		if len(seen) < 25 {
			c.Fatalf("only %d of 50 generated hashes differ", len(seen))
		}
	})
}

func TestGraphQLNames(t *testing.T) {
	vh.Run(t, vh.Opt{N: 2000, Rule: "GraphQL type names; non-trivial: a name other than the right one"}, func(c *vh.C) {
		s := rapid.OneOf(rapid.SampledFrom([]string{"Bytes32", "Address", "Bytes", "bytes32", "BigInt", ""}), rapid.SampledFrom(vh.DictStrs())).Draw(c.T, "s")
		c.Note(s != "Bytes32" && s != "Address", "%q", s)
		if (common.Hash{}).ImplementsGraphQLType(s) != (s == "Bytes32") || (common.Address{}).ImplementsGraphQLType(s) != (s == "Address") {
			c.Fatalf("ImplementsGraphQLType(%q) is wrong", s)
		}
	})
}
