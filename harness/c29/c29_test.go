// Package c29 checks property C29: parsing of combined solc output.
package c29

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"unicode/utf8"

	"flychain/common/compiler"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

// text draws valid UTF-8 (anything else does not survive JSON).
func text(t *rapid.T, label string) string {
	s := vh.Str(t, 40, label)
	if !utf8.ValidString(s) {
		s = strings.ToValidUTF8(s, "?")
	}
	return s
}

// value draws a JSON value.
func value(t *rapid.T, depth int) any {
	k := rapid.IntRange(0, 7).Draw(t, "jk")
	if depth == 0 && k >= 5 {
		k -= 5
	}
	switch k {
	case 0:
		return text(t, "js")
	case 1:
		return float64(rapid.Int32().Draw(t, "jn")) / 4
	case 2:
		return rapid.Bool().Draw(t, "jb")
	case 3:
		return nil
	case 4:
		return float64(vh.U64(t, "ju"))
	case 5:
		return array(t, depth-1)
	default:
		return object(t, depth-1)
	}
}

func array(t *rapid.T, depth int) any {
	a := []any{}
	for n := rapid.IntRange(0, 3).Draw(t, "an"); n > 0; n-- {
		a = append(a, value(t, depth))
	}
	return a
}

func object(t *rapid.T, depth int) any {
	o := map[string]any{}
	for n := rapid.IntRange(0, 3).Draw(t, "on"); n > 0; n-- {
		k := rapid.SampledFrom([]string{"name", "type", "inputs", "stateMutability", "bin", "kind", "methods", "version", "abi", ""}).Draw(t, "ok")
		if rapid.Bool().Draw(t, "okr") {
			k = text(t, "ok2")
		}
		o[k] = value(t, depth)
	}
	return o
}

// noise re-reads a value so that it has exactly the types json gives.
func norm(v any) any {
	b, _ := json.Marshal(v)
	var out any
	json.Unmarshal(b, &out)
	return out
}

type contract struct {
	bin, binrt, srcmap, srcmaprt, meta string
	hashes                             map[string]string
	abi, user, dev                     any
}

func drawContract(t *rapid.T) contract {
	hex := func(l string) string {
		s := vh.Hex(t, 2*vh.Len(t, 20, l), l+"h")
		if rapid.IntRange(0, 5).Draw(t, l+"lib") == 0 { // code to be linked with libraries
			s += rapid.SampledFrom([]string{"__$53aea86b7d70b31448b230b20ae141a537$__", "__a.sol:Lib_____________________________"}).Draw(t, l+"ph") + s
		}
		return s
	}
	src := func(l string) string {
		if rapid.IntRange(0, 3).Draw(t, l+"k") == 0 {
			return text(t, l)
		}
		return rapid.StringMatching(`([0-9]{0,3}:[0-9]{0,3}:-?[01];?){0,4}`).Draw(t, l)
	}
	c := contract{bin: hex("bin"), binrt: hex("binrt"), srcmap: src("sm"), srcmaprt: src("smrt"), meta: text(t, "meta")}
	if rapid.IntRange(0, 3).Draw(t, "hs") > 0 {
		c.hashes = map[string]string{}
		for n := rapid.IntRange(0, 3).Draw(t, "hn"); n > 0; n-- {
			c.hashes[text(t, "sig")] = vh.Hex(t, 8, "hash")
		}
	}
	c.abi, c.user, c.dev = array(t, 3), object(t, 2), object(t, 2)
	return c
}

func jtext(t *rapid.T, v any) string {
	var b []byte
	if rapid.IntRange(0, 2).Draw(t, "ind") == 0 {
		b, _ = json.MarshalIndent(v, "", rapid.SampledFrom([]string{" ", "\t", ""}).Draw(t, "indent"))
	} else {
		b, _ = json.Marshal(v)
	}
	return string(b)
}

// member draws whether the optional member is written (an absent member and an empty one read the same).
func put(t *rapid.T, m map[string]any, k string, v any, empty bool) {
	if empty && rapid.Bool().Draw(t, "omit-"+k) {
		return
	}
	m[k] = v
}

func doc(t *rapid.T, cs map[string]contract, names []string, v8 bool, broken string) []byte {
	out := map[string]any{}
	for _, name := range names {
		c := cs[name]
		m := map[string]any{}
		put(t, m, "bin", c.bin, c.bin == "")
		put(t, m, "bin-runtime", c.binrt, c.binrt == "")
		put(t, m, "srcmap", c.srcmap, c.srcmap == "")
		put(t, m, "srcmap-runtime", c.srcmaprt, c.srcmaprt == "")
		put(t, m, "metadata", c.meta, c.meta == "")
		put(t, m, "hashes", c.hashes, c.hashes == nil)
		if v8 {
			m["abi"], m["userdoc"], m["devdoc"] = c.abi, c.user, c.dev
		} else {
			m["abi"], m["userdoc"], m["devdoc"] = jtext(t, c.abi), jtext(t, c.user), jtext(t, c.dev)
		}
		if name == broken {
			k := rapid.SampledFrom([]string{"abi", "userdoc", "devdoc"}).Draw(t, "broken")
			s := m[k].(string)
			switch rapid.IntRange(0, 4).Draw(t, "how") {
			case 0:
				s = ""
			case 1:
				s = s[:len(s)-1]
			case 2:
				s += "]"
			case 3:
				s = " " + strings.Repeat("{", 1) + s
			default:
				s = rapid.SampledFrom([]string{"nul", "'x'", "[1,]", "{a:1}", "not json", "\x00", "[] []", "0x12", "{\"a\":}"}).Draw(t, "junk")
			}
			m[k] = s
		}
		for n := rapid.IntRange(0, 2).Draw(t, "extra"); n > 0; n-- {
			k := rapid.SampledFrom([]string{"asm", "opcodes", "storage-layout", "ast", "function-debug", "generated-sources", "bin_runtime"}).Draw(t, "xk")
			m[k] = value(t, 1)
		}
		out[name] = m
	}
	d := map[string]any{"contracts": out}
	if rapid.Bool().Draw(t, "ver") {
		d["version"] = text(t, "version")
	}
	if rapid.IntRange(0, 2).Draw(t, "srcs") == 0 {
		d["sourceList"] = array(t, 1)
	}
	return []byte(jtext(t, d))
}

type strs struct{ source, lang, comp, opts string }

func drawStrs(t *rapid.T) strs {
	return strs{vh.Str(t, 30, "source"), text(t, "lang"), text(t, "comp"), text(t, "opts")}
}

func want(cs map[string]contract, s strs) map[string]*compiler.Contract {
	m := map[string]*compiler.Contract{}
	for name, c := range cs {
		m[name] = &compiler.Contract{Code: "0x" + c.bin, RuntimeCode: "0x" + c.binrt, Hashes: c.hashes,
			Info: compiler.ContractInfo{Source: s.source, Language: "Solidity", LanguageVersion: s.lang, CompilerVersion: s.comp, CompilerOptions: s.opts,
				SrcMap: c.srcmap, SrcMapRuntime: c.srcmaprt, AbiDefinition: c.abi, UserDoc: c.user, DeveloperDoc: c.dev, Metadata: c.meta}}
	}
	return m
}

func drawSet(t *rapid.T, min int) (map[string]contract, []string) {
	cs := map[string]contract{}
	var names []string
	n := rapid.IntRange(min, 4).Draw(t, "contracts")
	if rapid.IntRange(0, 49).Draw(t, "many") == 0 {
		n = rapid.IntRange(5, 40).Draw(t, "manycontracts")
	}
	for ; n > 0; n-- {
		name := rapid.SampledFrom([]string{"a.sol:A", "a.sol:B", "<stdin>:Token", "contracts/x/y.sol:Z"}).Draw(t, "name")
		if rapid.IntRange(0, 2).Draw(t, "nk") == 0 {
			name = text(t, "name2")
		}
		if _, ok := cs[name]; ok {
			continue
		}
		c := drawContract(t)
		c.abi, c.user, c.dev = norm(c.abi), norm(c.user), norm(c.dev)
		cs[name], names = c, append(names, name)
	}
	return cs, names
}

func TestParse(t *testing.T) {
	vh.Run(t, vh.Opt{N: 6000, Rule: "0-4, sometimes up to 40, contracts with generated code, maps, hashes, ABIs and docs, in old and new format, with unknown and omitted members; non-trivial: at least one contract"}, func(c *vh.C) {
		cs, names := drawSet(c.T, 0)
		s := drawStrs(c.T)
		oldDoc, newDoc := doc(c.T, cs, names, false, "\xff"), doc(c.T, cs, names, true, "\xff")
		c.Note(len(cs) > 0, "%s", newDoc)
		c.Class("%d contracts", len(cs))
		w := want(cs, s)
		for _, f := range []struct {
			name string
			d    []byte
			fn   func([]byte, string, string, string, string) (map[string]*compiler.Contract, error)
		}{{"old", oldDoc, compiler.ParseCombinedJSON}, {"new", newDoc, compiler.ParseCombinedJSON}, {"new (V8)", newDoc, compiler.ParseCombinedJSONV8}} {
			in := append([]byte(nil), f.d...)
			got, err := f.fn(in, s.source, s.lang, s.comp, s.opts)
			if err != nil {
				c.Fatalf("%s format: %v\n%s", f.name, err, f.d)
			}
			if !bytes.Equal(in, f.d) {
				c.Fatalf("%s format: input changed", f.name)
			}
			if len(got) != len(w) {
				c.Fatalf("%s format: %d contracts, want %d\n%s", f.name, len(got), len(w), f.d)
			}
			for name, wc := range w {
				gc := got[name]
				if gc == nil {
					c.Fatalf("%s format: contract %q missing\n%s", f.name, name, f.d)
				}
				if len(gc.Hashes) == 0 && len(wc.Hashes) == 0 {
					gc.Hashes, wc.Hashes = nil, nil
				}
				if !reflect.DeepEqual(gc, wc) {
					c.Fatalf("%s format: contract %q is\n%s\nwant\n%s\nin %s", f.name, name, dump(gc), dump(wc), f.d)
				}
				for other := range got {
					if other != name && got[other] == gc {
						c.Fatalf("contracts %q and %q are one object", name, other)
					}
				}
			}
		}
	})
}

func dump(c *compiler.Contract) string { return fmt.Sprintf("%+v", *c) }

// In the new format documentation may be absent: it reads as nil.
func TestNewFormatMissingDocs(t *testing.T) {
	vh.Run(t, vh.Opt{N: 2000, Rule: "new format documents whose contracts lack documentation members; non-trivial: something is missing"}, func(c *vh.C) {
		cs, names := drawSet(c.T, 1)
		s := drawStrs(c.T)
		var d map[string]map[string]map[string]any
		full := map[string]any{}
		json.Unmarshal(doc(c.T, cs, names, true, "\xff"), &full)
		b, _ := json.Marshal(map[string]any{"contracts": full["contracts"]})
		json.Unmarshal(b, &d)
		missing := 0
		for _, n := range names {
			x := cs[n]
			if rapid.Bool().Draw(c.T, "nouser") {
				delete(d["contracts"][n], "userdoc")
				x.user = nil
				missing++
			}
			if rapid.Bool().Draw(c.T, "nodev") {
				delete(d["contracts"][n], "devdoc")
				x.dev = nil
				missing++
			}
			cs[n] = x
		}
		b, _ = json.Marshal(d)
		c.Note(missing > 0, "%s", b)
		got, err := compiler.ParseCombinedJSON(b, s.source, s.lang, s.comp, s.opts)
		if err != nil || len(got) != len(cs) {
			c.Fatalf("%d contracts, error %v, want %d\n%s", len(got), err, len(cs), b)
		}
		for n, wc := range want(cs, s) {
			if gc := got[n]; gc == nil || !reflect.DeepEqual(gc.Info, wc.Info) {
				c.Fatalf("contract %q is %+v, want %+v", n, gc, *wc)
			}
		}
	})
}

// In the old format the embedded texts may hold any JSON value.
func TestOldAnyValue(t *testing.T) {
	vh.Run(t, vh.Opt{N: 3000, Rule: "old-format contracts whose embedded texts are any JSON value with blanks around it; non-trivial: not an array or object"}, func(c *vh.C) {
		cs, names := drawSet(c.T, 1)
		s := drawStrs(c.T)
		nt := false
		for _, n := range names {
			x := cs[n]
			for _, f := range []*any{&x.abi, &x.user, &x.dev} {
				*f = norm(value(c.T, 2))
				switch (*f).(type) {
				case []any, map[string]any:
				default:
					nt = true
				}
			}
			cs[n] = x
		}
		b := doc(c.T, cs, names, false, "\xff")
		c.Note(nt, "%s", b)
		got, err := compiler.ParseCombinedJSON(b, s.source, s.lang, s.comp, s.opts)
		if err != nil || len(got) != len(cs) {
			c.Fatalf("%d contracts, error %v, want %d\n%s", len(got), err, len(cs), b)
		}
		for n, wc := range want(cs, s) {
			if gc := got[n]; gc == nil || !reflect.DeepEqual(gc.Info, wc.Info) {
				c.Fatalf("contract %q is %+v, want %+v", n, gc, *wc)
			}
		}
	})
}

func TestBroken(t *testing.T) {
	vh.Run(t, vh.Opt{N: 10000, Rule: "old-format documents with one embedded text that is not JSON, and documents of both formats that are truncated, extended, corrupted or mistyped; non-trivial: all"}, func(c *vh.C) {
		cs, names := drawSet(c.T, 1)
		s := drawStrs(c.T)
		var b []byte
		mode := rapid.IntRange(0, 4).Draw(c.T, "mode")
		v8 := rapid.Bool().Draw(c.T, "v8")
		switch mode {
		case 0, 1:
			mode = 0
			b = doc(c.T, cs, names, false, rapid.SampledFrom(names).Draw(c.T, "brokenname"))
		case 2:
			b = doc(c.T, cs, names, v8, "\xff")
			b = b[:rapid.IntRange(0, len(b)-1).Draw(c.T, "cut")]
		case 3:
			b = doc(c.T, cs, names, v8, "\xff")
			i := rapid.IntRange(0, len(b)-1).Draw(c.T, "at")
			x := rapid.SampledFrom([]byte("\x00}{][\",:x\n")).Draw(c.T, "byte")
			switch rapid.IntRange(0, 2).Draw(c.T, "edit") {
			case 0:
				b[i] = x
			case 1:
				b = append(b[:i], append([]byte{x}, b[i:]...)...)
			default:
				b = append(b, x)
			}
			if json.Valid(b) {
				return
			}
		default:
			var d map[string]any
			json.Unmarshal(doc(c.T, cs, names, v8, "\xff"), &d)
			if rapid.IntRange(0, 4).Draw(c.T, "top") == 0 {
				d["contracts"] = array(c.T, 1)
			} else {
				m := d["contracts"].(map[string]any)[rapid.SampledFrom(names).Draw(c.T, "mname")].(map[string]any)
				m[rapid.SampledFrom([]string{"bin", "bin-runtime", "srcmap", "srcmap-runtime", "metadata", "hashes"}).Draw(c.T, "member")] =
					rapid.SampledFrom([]any{1.0, true, []any{"x"}, []any{}}).Draw(c.T, "wrong")
			}
			b, _ = json.Marshal(d)
		}
		c.Note(true, "%s", b)
		c.Class("mode %d", mode)
		got, err := compiler.ParseCombinedJSON(b, s.source, s.lang, s.comp, s.opts)
		if err == nil {
			c.Fatalf("accepted, %d contracts: %s", len(got), b)
		}
		if len(got) != 0 {
			c.Fatalf("error %v together with %d contracts", err, len(got))
		}
		if mode >= 2 {
			if got, err := compiler.ParseCombinedJSONV8(b, s.source, s.lang, s.comp, s.opts); err == nil || len(got) != 0 {
				c.Fatalf("V8 accepted: %d contracts, error %v: %s", len(got), err, b)
			}
		}
	})
}

func TestContractJSON(t *testing.T) {
	vh.Run(t, vh.Opt{N: 3000, Rule: "contracts encoded as JSON and read back; non-trivial: all"}, func(c *vh.C) {
		cs, _ := drawSet(c.T, 1)
		s := drawStrs(c.T)
		s.source = strings.ToValidUTF8(s.source, "?")
		for n, x := range want(cs, s) {
			b, err := json.Marshal(x)
			if err != nil {
				c.Fatalf("%v", err)
			}
			c.Note(true, "%s", b)
			var back compiler.Contract
			if err := json.Unmarshal(b, &back); err != nil || !reflect.DeepEqual(&back, x) {
				c.Fatalf("contract %q: %+v reads back as %+v (%v)", n, *x, back, err)
			}
		}
	})
}
