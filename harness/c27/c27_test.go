// Package c27 checks property C27: RLP struct tag rules.
package c27

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"flychain/rlp/internal/rlpstruct"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

var kinds = []reflect.Kind{
	reflect.Bool, reflect.Int, reflect.Int8, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32,
	reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Complex128, reflect.Array, reflect.Chan,
	reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.String, reflect.Struct, reflect.UnsafePointer,
	reflect.Invalid, reflect.Int16, reflect.Int32, reflect.Complex64,
}

func drawType(t *rapid.T, depth int) rlpstruct.Type {
	var k reflect.Kind
	switch rapid.IntRange(0, 9).Draw(t, "kc") {
	case 0, 1, 2:
		k = reflect.Pointer
	case 3, 4:
		k = reflect.Slice
	case 5:
		k = reflect.Array
	case 6:
		k = reflect.Uint8
	default:
		k = rapid.SampledFrom(kinds).Draw(t, "kind")
	}
	comp := k == reflect.Pointer || k == reflect.Slice || k == reflect.Array
	if comp && depth == 0 {
		k, comp = rapid.SampledFrom([]reflect.Kind{reflect.Uint8, reflect.Uint8, reflect.Uint16, reflect.Struct, reflect.String}).Draw(t, "leaf"), false
	}
	ty := rlpstruct.Type{Name: rapid.SampledFrom([]string{"T", "byte", "main.X", ""}).Draw(t, "tn"), Kind: k,
		IsEncoder: rapid.IntRange(0, 3).Draw(t, "enc") == 0, IsDecoder: rapid.IntRange(0, 3).Draw(t, "dec") == 0}
	if comp {
		e := drawType(t, depth-1)
		ty.Elem = &e
	}
	return ty
}

func show(t rlpstruct.Type) string {
	s := t.Kind.String()
	if t.IsEncoder {
		s += "!"
	}
	if t.Elem != nil {
		s += "<" + show(*t.Elem) + ">"
	}
	return s
}

// refNil is the documented empty value of a nil pointer to t.
func refNil(t rlpstruct.Type) rlpstruct.NilKind {
	switch t.Kind {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.String, reflect.Bool:
		return 0x80
	case reflect.Array, reflect.Slice:
		if t.Elem.Kind == reflect.Uint8 && !t.Elem.IsEncoder {
			return 0x80
		}
	}
	return 0xC0
}

func TestDefaultNil(t *testing.T) {
	vh.Run(t, vh.Opt{N: 30000, Rule: "types of every kind with elements up to depth 3, with and without encoder methods; non-trivial: composite or string-like"}, func(c *vh.C) {
		ty := drawType(c.T, 3)
		w := refNil(ty)
		c.Note(ty.Elem != nil || w == 0x80, "%s", show(ty))
		c.Class("%s %x", ty.Kind, uint8(w))
		if got := ty.DefaultNilValue(); got != w {
			c.Fatalf("DefaultNilValue(%s) = %#x, want %#x", show(ty), uint8(got), uint8(w))
		}
	})
	if rlpstruct.NilKindString != 0x80 || rlpstruct.NilKindList != 0xC0 {
		t.Fatal("nil kinds are not the RLP empty values")
	}
}

var words = []string{"nil", "nilString", "nilList", "optional", "tail", "-", ""}

// drawTag draws the items of an rlp tag and its full text.
func drawTag(t *rapid.T) (items []string, text string) {
	n := rapid.SampledFrom([]int{0, 0, 1, 1, 1, 1, 2, 2, 3, 4}).Draw(t, "tags")
	pad := func() string {
		return rapid.SampledFrom([]string{"", "", "", " ", "  "}).Draw(t, "pad")
	}
	var parts []string
	for i := 0; i < n; i++ {
		w := rapid.SampledFrom(words).Draw(t, "word")
		if rapid.IntRange(0, 24).Draw(t, "odd") == 0 {
			w = rapid.SampledFrom([]string{"Nil", "nilstring", "NILLIST", "tail2", "opt", "omitempty", "--", "nil nil", "optional;tail", "x", "string", "rest", "nil:x", "nilBytes", "Optional", "-x"}).Draw(t, "unknown")
		}
		items = append(items, w)
		parts = append(parts, pad()+w+pad())
	}
	v := strings.Join(parts, ",")
	if n == 0 {
		text = rapid.SampledFrom([]string{"", "", `json:"nil"`, `rlp:""`, `json:"x,optional" xml:"tail"`, `xrlp:"nil"`}).Draw(t, "none")
		return
	}
	text = "rlp:" + strconv.Quote(v)
	switch rapid.IntRange(0, 4).Draw(t, "around") {
	case 0:
		text = `json:"tail,omitempty" ` + text
	case 1:
		text += ` json:"-"`
	}
	return
}

// bad reports whether the items are an error on a field of this kind.
func bad(items []string, kind reflect.Kind, lastExported bool) bool {
	var tail, opt, isBad bool
	for _, w := range items {
		switch w {
		case "nil", "nilString", "nilList":
			isBad = isBad || kind != reflect.Pointer
		case "optional":
			opt = true
		case "tail":
			tail = true
			isBad = isBad || kind != reflect.Slice || !lastExported
		case "-", "":
		default:
			isBad = true
		}
	}
	return isBad || tail && opt
}

func decode(items []string, ty rlpstruct.Type) (ts rlpstruct.Tags) {
	for _, w := range items {
		switch w {
		case "nil":
			ts.NilOK, ts.NilKind = true, refNil(*ty.Elem)
		case "nilString":
			ts.NilOK, ts.NilKind = true, 0x80
		case "nilList":
			ts.NilOK, ts.NilKind = true, 0xC0
		case "optional":
			ts.Optional = true
		case "tail":
			ts.Tail = true
		case "-":
			ts.Ignored = true
		}
	}
	return
}

func TestProcessFields(t *testing.T) {
	vh.Run(t, vh.Opt{N: 60000, Rule: "lists of 0-7 fields, exported or not, any kind, with 0-4 tags each in any order and spacing, steered so that about half of the lists are valid; non-trivial: some field has a tag"}, func(c *vh.C) {
		n := rapid.IntRange(0, 7).Draw(c.T, "n")
		tame := rapid.IntRange(0, 3).Draw(c.T, "tame") > 0
		var fields []rlpstruct.Field
		var items [][]string
		for i := 0; i < n; i++ {
			it, text := drawTag(c.T)
			fields = append(fields, rlpstruct.Field{Name: fmt.Sprintf("Fld%dq", i), Index: i, Exported: rapid.IntRange(0, 4).Draw(c.T, "exp") > 0,
				Type: drawType(c.T, 2), Tag: text})
			items = append(items, it)
		}
		last := -1
		for i, f := range fields {
			if f.Exported {
				last = i
			}
		}
		if tame { // replace most invalid tags, so that later rules are reached
			opt := false
			keep := rapid.IntRange(0, n*3).Draw(c.T, "keepbad")
			for i := range fields {
				f := &fields[i]
				if !f.Exported || i == keep {
					continue
				}
				if bad(items[i], f.Type.Kind, i == last) {
					items[i], f.Tag = nil, ""
				}
				d := decode(items[i], f.Type)
				if opt && !d.Optional && !d.Ignored && !d.Tail {
					items[i] = append([]string{"optional"}, items[i]...)
					f.Tag = "rlp:" + strconv.Quote(strings.Join(items[i], ", "))
				}
				opt = opt || d.Optional && !d.Ignored
			}
		}
		before := fmt.Sprintf("%v", fields)
		tagged := false
		desc := ""
		for i, f := range fields {
			tagged = tagged || len(items[i]) > 0 && f.Exported
			desc += fmt.Sprintf("%v:%s:%q ", f.Exported, show(f.Type), f.Tag)
		}
		c.Note(tagged, "%s", desc)

		// reference
		var wantF []rlpstruct.Field
		var wantT []rlpstruct.Tags
		offenders := map[string]bool{}
		tagErr := false
		for i, f := range fields {
			if !f.Exported {
				continue
			}
			if bad(items[i], f.Type.Kind, i == last) {
				offenders[f.Name], tagErr = true, true
				continue
			}
			if ts := decode(items[i], f.Type); !ts.Ignored {
				wantF, wantT = append(wantF, f), append(wantT, ts)
			}
		}
		opt := false
		for i, ts := range wantT {
			if opt && !ts.Optional && !ts.Tail {
				offenders[wantF[i].Name] = true
			}
			opt = opt || ts.Optional
		}

		gotF, gotT, err := rlpstruct.ProcessFields(fields)
		if after := fmt.Sprintf("%v", fields); after != before {
			c.Fatalf("ProcessFields changed its input\n%s\n%s", before, after)
		}
		if len(offenders) > 0 {
			c.Class("error %v", map[bool]string{true: "tag", false: "required after optional"}[tagErr])
			if err == nil {
				c.Fatalf("accepted, although %v break the rules: %s", offenders, desc)
			}
			if gotF != nil || gotT != nil {
				c.Fatalf("fields and an error: %v %v", gotF, err)
			}
			var te rlpstruct.TagError
			if !errors.As(err, &te) || !offenders[te.Field] {
				c.Fatalf("error %q names field %q, want one of %v: %s", err, te.Field, offenders, desc)
			}
			if !strings.Contains(err.Error(), "field "+te.Field+" ") {
				c.Fatalf("the text %q does not name the field %q", err, te.Field)
			}
			te.StructType = "pkg.Struct"
			if !strings.Contains(te.Error(), "pkg.Struct."+te.Field+" ") {
				c.Fatalf("the text %q does not name the struct and field", te.Error())
			}
			return
		}
		c.Class("accepted %d of %d", len(wantF), n)
		if err != nil {
			c.Fatalf("rejected: %v: %s", err, desc)
		}
		if len(gotF) != len(wantF) || len(gotT) != len(wantT) {
			c.Fatalf("%d fields, %d tags, want %d: %s", len(gotF), len(gotT), len(wantF), desc)
		}
		for i := range wantF {
			if !reflect.DeepEqual(gotF[i], wantF[i]) {
				c.Fatalf("field %d is %+v, want %+v", i, gotF[i], wantF[i])
			}
			if gotT[i] != wantT[i] {
				c.Fatalf("tags of field %s (%s %q): %+v, want %+v", wantF[i].Name, show(wantF[i].Type), wantF[i].Tag, gotT[i], wantT[i])
			}
		}
	})
}
