// Command runner compares the generated methods of package gen with a
// reflection encoder and decoder that follow the RLP rules directly.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"

	"rlp"
	"rlp/gen"
)

var (
	tEnc = reflect.TypeOf((*rlp.Encoder)(nil)).Elem()
	tDec = reflect.TypeOf((*rlp.Decoder)(nil)).Elem()
	tRaw = reflect.TypeOf(rlp.RawValue(nil))
	tBig = reflect.TypeOf(big.Int{})
)

type fld struct {
	i, nilKind int // nilKind: 0, 0x80 or 0xC0
	optional   bool
}

// plain reports a pointer that is handled by itself (custom codec or big.Int).
func special(t reflect.Type) bool {
	return t.Kind() == reflect.Ptr && (t.Elem() == tBig || t.Implements(tEnc) && t.Implements(tDec))
}

var fieldCache = map[reflect.Type][]fld{}

func fieldsOf(t reflect.Type) []fld {
	if f, ok := fieldCache[t]; ok {
		return f
	}
	var out []fld
next:
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		x := fld{i: i}
		for _, w := range strings.Split(f.Tag.Get("rlp"), ",") {
			switch strings.TrimSpace(w) {
			case "-":
				continue next
			case "nil":
				x.nilKind = defNil(f.Type.Elem())
			case "nilString":
				x.nilKind = 0x80
			case "nilList":
				x.nilKind = 0xC0
			case "optional":
				x.optional = true
			}
		}
		out = append(out, x)
	}
	fieldCache[t] = out
	return out
}

func isBytes(t reflect.Type) bool {
	return (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) && t.Elem().Kind() == reflect.Uint8
}

func defNil(t reflect.Type) int {
	switch t.Kind() {
	case reflect.Bool, reflect.String, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint, reflect.Uintptr:
		return 0x80
	}
	if isBytes(t) {
		return 0x80
	}
	return 0xC0
}

func head(base byte, n int) []byte {
	if n <= 55 {
		return []byte{base + byte(n)}
	}
	var l []byte
	for v := n; v > 0; v >>= 8 {
		l = append([]byte{byte(v)}, l...)
	}
	return append([]byte{base + 55 + byte(len(l))}, l...)
}

func str(p []byte) []byte {
	if len(p) == 1 && p[0] < 0x80 {
		return []byte{p[0]}
	}
	return append(head(0x80, len(p)), p...)
}

// enc is the reference encoder; lossy is set when the value need not read back equal.
func enc(v reflect.Value, nilKind int, lossy *bool) ([]byte, error) {
	t := v.Type()
	switch {
	case t == tRaw:
		if v.Len() == 0 {
			*lossy = true
		}
		return append([]byte{}, v.Bytes()...), nil
	case t == tBig:
		i := v.Addr().Interface().(*big.Int)
		if i.Sign() < 0 {
			return nil, errors.New("negative")
		}
		return str(i.Bytes()), nil
	case t.Kind() == reflect.Ptr && t.Elem() == tBig:
		if v.IsNil() {
			*lossy = true
			return []byte{0x80}, nil
		}
		return enc(v.Elem(), 0, lossy)
	case special(t):
		if v.IsNil() {
			*lossy = true
		}
		var b bytes.Buffer
		err := v.Interface().(rlp.Encoder).EncodeRLP(&b)
		return b.Bytes(), err
	}
	switch t.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return []byte{1}, nil
		}
		return []byte{0x80}, nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		var p []byte
		for x := v.Uint(); x > 0; x >>= 8 {
			p = append([]byte{byte(x)}, p...)
		}
		return str(p), nil
	case reflect.String:
		return str([]byte(v.String())), nil
	case reflect.Array:
		p := make([]byte, v.Len())
		for i := range p {
			p[i] = byte(v.Index(i).Uint())
		}
		return str(p), nil
	case reflect.Slice:
		if isBytes(t) {
			return str(v.Bytes()), nil
		}
		var body []byte
		for i := 0; i < v.Len(); i++ {
			p, err := enc(v.Index(i), 0, lossy)
			if err != nil {
				return nil, err
			}
			body = append(body, p...)
		}
		return append(head(0xC0, len(body)), body...), nil
	case reflect.Ptr:
		k := nilKind
		if k == 0 {
			k = defNil(t.Elem())
		}
		if v.IsNil() {
			if nilKind == 0 {
				*lossy = true
			}
			return []byte{byte(k)}, nil
		}
		p, err := enc(v.Elem(), 0, lossy)
		if nilKind != 0 && len(p) == 1 && int(p[0]) == nilKind {
			*lossy = true
		}
		return p, err
	case reflect.Struct:
		fs := fieldsOf(t)
		n := len(fs)
		for n > 0 && fs[n-1].optional && zero(v.Field(fs[n-1].i)) {
			n--
		}
		var body []byte
		for _, f := range fs[:n] {
			p, err := enc(v.Field(f.i), f.nilKind, lossy)
			if err != nil {
				return nil, err
			}
			body = append(body, p...)
		}
		return append(head(0xC0, len(body)), body...), nil
	}
	panic("type " + t.String())
}

func zero(v reflect.Value) bool {
	if v.Kind() == reflect.Slice {
		return v.Len() == 0
	}
	return v.IsZero()
}

// cursor walks over the values between pos and end.
type cursor struct {
	in       []byte
	pos, end int
	quirk    bool // see known_findings.txt: nil-tagged pointers do not consume the empty value
}

var errDec = errors.New("malformed")

// item gives the kind and payload of the next value.
func (c *cursor) item() (kind, from, to int, err error) {
	if c.pos >= c.end {
		return 0, 0, 0, errDec
	}
	b := int(c.in[c.pos])
	if b < 0x80 {
		return 0, c.pos, c.pos + 1, nil
	}
	kind = 0x80
	if b >= 0xC0 {
		kind = 0xC0
	}
	n := b - kind
	from = c.pos + 1
	if n > 55 {
		ll := n - 55
		if from+ll > c.end || c.in[from] == 0 {
			return 0, 0, 0, errDec
		}
		n = 0
		for _, x := range c.in[from : from+ll] {
			if n > 1<<40 {
				return 0, 0, 0, errDec
			}
			n = n<<8 | int(x)
		}
		if n < 56 {
			return 0, 0, 0, errDec
		}
		from += ll
	}
	if n > c.end-from {
		return 0, 0, 0, errDec
	}
	return kind, from, from + n, nil
}

// bytes reads a string value.
func (c *cursor) bytes() ([]byte, error) {
	k, a, b, err := c.item()
	if err != nil || k == 0xC0 || k == 0x80 && b-a == 1 && c.in[a] < 0x80 {
		return nil, errDec
	}
	c.pos = b
	return c.in[a:b], nil
}

func (c *cursor) list() (*cursor, error) {
	k, a, b, err := c.item()
	if err != nil || k != 0xC0 {
		return nil, errDec
	}
	c.pos = b
	return &cursor{in: c.in, pos: a, end: b, quirk: c.quirk}, nil
}

func number(p []byte, width int) (uint64, error) {
	if len(p) > width || len(p) > 0 && p[0] == 0 {
		return 0, errDec
	}
	var v uint64
	for _, b := range p {
		v = v<<8 | uint64(b)
	}
	return v, nil
}

func dec(v reflect.Value, c *cursor, nilKind int) error {
	t := v.Type()
	switch {
	case t == tRaw:
		_, _, b, err := c.item()
		if err != nil {
			return err
		}
		v.SetBytes(append([]byte{}, c.in[c.pos:b]...))
		c.pos = b
		return nil
	case t == tBig:
		p, err := c.bytes()
		if err != nil || len(p) > 0 && p[0] == 0 {
			return errDec
		}
		v.Addr().Interface().(*big.Int).SetBytes(p)
		return nil
	case t.Kind() == reflect.Ptr && t.Elem() == tBig:
		v.Set(reflect.New(tBig))
		return dec(v.Elem(), c, 0)
	case special(t):
		s := rlp.NewBytesStream(c.in[c.pos:c.end])
		if c.pos >= c.end {
			return errDec
		}
		if _, _, _, err := c.item(); err != nil {
			return err
		}
		v.Set(reflect.New(t.Elem()))
		if err := v.Interface().(rlp.Decoder).DecodeRLP(s); err != nil {
			return err
		}
		c.pos = c.end - s.Rest()
		return nil
	}
	switch t.Kind() {
	case reflect.Bool:
		p, err := c.bytes()
		if err != nil {
			return err
		}
		x, err := number(p, 1)
		if err != nil || x > 1 {
			return errDec
		}
		v.SetBool(x == 1)
		return nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		p, err := c.bytes()
		if err != nil {
			return err
		}
		x, err := number(p, t.Bits()/8)
		if err != nil {
			return err
		}
		v.SetUint(x)
		return nil
	case reflect.String:
		p, err := c.bytes()
		if err != nil {
			return err
		}
		v.SetString(string(p))
		return nil
	case reflect.Array:
		p, err := c.bytes()
		if err != nil || len(p) != v.Len() {
			return errDec
		}
		for i := range p {
			v.Index(i).SetUint(uint64(p[i]))
		}
		return nil
	case reflect.Slice:
		if isBytes(t) {
			p, err := c.bytes()
			if err != nil {
				return err
			}
			v.SetBytes(append([]byte{}, p...))
			return nil
		}
		l, err := c.list()
		if err != nil {
			return err
		}
		for l.pos < l.end {
			e := reflect.New(t.Elem()).Elem()
			if err := dec(e, l, 0); err != nil {
				return err
			}
			v.Set(reflect.Append(v, e))
		}
		return nil
	case reflect.Ptr:
		if nilKind != 0 {
			k, a, b, err := c.item()
			if err != nil {
				return err
			}
			if a == b && k == nilKind {
				v.Set(reflect.Zero(t))
				if !c.quirk {
					c.pos = b
				}
				return nil
			}
		}
		v.Set(reflect.New(t.Elem()))
		return dec(v.Elem(), c, 0)
	case reflect.Struct:
		l, err := c.list()
		if err != nil {
			return err
		}
		for _, f := range fieldsOf(t) {
			if f.optional && l.pos >= l.end {
				break
			}
			if err := dec(v.Field(f.i), l, f.nilKind); err != nil {
				return err
			}
		}
		if l.pos != l.end {
			return errDec
		}
		return nil
	}
	panic("type " + t.String())
}

// ---- values ----

func size(r *rand.Rand) int {
	switch r.Intn(10) {
	case 0, 1:
		return 0
	case 2, 3:
		return 1
	case 4:
		return 53 + r.Intn(6)
	case 5:
		if r.Intn(6) == 0 {
			return 250 + r.Intn(12)
		}
		return 2
	}
	return r.Intn(9)
}

func rbytes(r *rand.Rand, n int) []byte {
	p := make([]byte, n)
	switch r.Intn(4) {
	case 0:
	case 1:
		for i := range p {
			p[i] = []byte{0, 1, 0x7f, 0x80, 0x81, 0xb7, 0xb8, 0xc0, 0xff}[r.Intn(9)]
		}
	default:
		r.Read(p)
	}
	return p
}

func ritem(r *rand.Rand, depth int) []byte {
	if depth == 0 || r.Intn(2) == 0 {
		return str(rbytes(r, size(r)))
	}
	var body []byte
	for n := r.Intn(3); n > 0; n-- {
		body = append(body, ritem(r, depth-1)...)
	}
	return append(head(0xC0, len(body)), body...)
}

func fill(v reflect.Value, r *rand.Rand, nilP int) {
	t := v.Type()
	switch {
	case t == tRaw:
		if r.Intn(25) > 0 {
			v.SetBytes(ritem(r, 2))
		}
		return
	case t == tBig:
		i := v.Addr().Interface().(*big.Int)
		i.SetBytes(rbytes(r, r.Intn(10)))
		if r.Intn(8) == 0 {
			i.SetBytes(rbytes(r, 56+r.Intn(4)))
		}
		if r.Intn(20) == 0 {
			i.Neg(i)
		}
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x := r.Uint64() >> uint(r.Intn(64))
		if r.Intn(4) == 0 {
			x = []uint64{0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 1<<32 - 1, 1<<64 - 1}[r.Intn(10)]
		}
		v.SetUint(x & (1<<uint(t.Bits()-1)<<1 - 1))
	case reflect.String:
		v.SetString(string(rbytes(r, size(r))))
	case reflect.Array:
		p := rbytes(r, v.Len())
		for i := range p {
			v.Index(i).SetUint(uint64(p[i]))
		}
	case reflect.Slice:
		if isBytes(t) {
			if n := size(r); n > 0 || r.Intn(2) == 0 {
				v.SetBytes(rbytes(r, n))
			}
			return
		}
		n := []int{0, 0, 1, 1, 2, 3, 5}[r.Intn(7)]
		if n > 0 || r.Intn(2) == 0 {
			v.Set(reflect.MakeSlice(t, n, n))
		}
		for i := 0; i < n; i++ {
			fill(v.Index(i), r, nilP)
		}
	case reflect.Ptr:
		if nilP > 0 && r.Intn(100) < nilP {
			return
		}
		v.Set(reflect.New(t.Elem()))
		if special(t) && t.Elem() != tBig {
			x := byte(r.Intn(128))
			if x == 0x66 && r.Intn(3) > 0 {
				x = 1
			}
			v.Elem().Field(0).SetUint(uint64(x))
			return
		}
		fill(v.Elem(), r, nilP)
	case reflect.Struct:
		fs := fieldsOf(t)
		keep := len(fs)
		if r.Intn(2) == 0 { // leave trailing fields zero
			keep = r.Intn(len(fs) + 1)
		}
		for i, f := range fs {
			if f.optional && i >= keep || r.Intn(12) == 0 && f.optional {
				continue
			}
			if ft := v.Field(f.i).Type(); f.nilKind != 0 && r.Intn(3) == 0 && !special(ft) {
				continue
			}
			fill(v.Field(f.i), r, nilP)
		}
		for i := 0; i < t.NumField(); i++ { // ignored fields hold data, too
			if f := t.Field(i); f.PkgPath == "" && strings.Contains(f.Tag.Get("rlp"), "-") && f.Type.Kind() == reflect.Int {
				v.Field(i).SetInt(int64(r.Intn(9)))
			}
		}
	}
}

// same compares the encoded parts of two values; nil and empty slices are equal.
func same(a, b reflect.Value) bool {
	t := a.Type()
	switch {
	case t == tBig:
		return a.Addr().Interface().(*big.Int).Cmp(b.Addr().Interface().(*big.Int)) == 0
	}
	switch t.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		if t.PkgPath() == "rlp/other" && t.Name() == "Custom" {
			return a.Field(0).Uint() == b.Field(0).Uint()
		}
		for _, f := range fieldsOf(t) {
			if !same(a.Field(f.i), b.Field(f.i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func show(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

func mutate(r *rand.Rand, p []byte) []byte {
	p = append([]byte{}, p...)
	for n := 1 + r.Intn(2); n > 0; n-- {
		if len(p) == 0 {
			return rbytes(r, r.Intn(5))
		}
		i := r.Intn(len(p))
		x := []byte{0, 1, 2, 0x7f, 0x80, 0x81, 0x82, 0xb7, 0xb8, 0xb9, 0xc0, 0xc1, 0xc2, 0xf7, 0xf8, 0xff}[r.Intn(16)]
		switch r.Intn(6) {
		case 0:
			p[i] = x
		case 1:
			p[i]++
		case 2:
			p[i]--
		case 3:
			p = append(p[:i], append([]byte{x}, p[i:]...)...)
		case 4:
			p = append(p[:i], p[i+1:]...)
		default:
			p = p[:i]
		}
	}
	return p
}

// restructure edits the item tree, so that lengths stay right.
func restructure(r *rand.Rand, p []byte) []byte {
	c := &cursor{in: p, end: len(p)}
	k, a, b, err := c.item()
	if err != nil || k != 0xC0 {
		return p
	}
	var items [][]byte
	l := &cursor{in: p, pos: a, end: b}
	for l.pos < l.end {
		_, _, e, err := l.item()
		if err != nil {
			return p
		}
		items = append(items, p[l.pos:e])
		l.pos = e
	}
	pick := func() int { return r.Intn(len(items)) }
	switch op := r.Intn(7); {
	case len(items) == 0 || op == 0:
		items = append(items, ritem(r, 1))
	case op == 1:
		items = items[:len(items)-1]
	case op == 2:
		i := pick()
		items[i] = ritem(r, 1)
	case op == 3:
		i, j := pick(), pick()
		items[i], items[j] = items[j], items[i]
	case op == 4:
		i := pick()
		items[i] = [][]byte{{0x80}, {0xC0}, {0x00}, {0x01}, {0x81, 0x80}, {0x82, 1, 0}, {0x81, 5}, {0x82, 0, 1}, {0xC1, 0x80}, {0x89, 1, 2, 3, 4, 5, 6, 7, 8, 9}, {0x02}, {0x81, 0xff}}[r.Intn(12)]
	default:
		i := pick()
		items[i] = restructure(r, items[i])
	}
	body := bytes.Join(items, nil)
	return append(head(0xC0, len(body)), body...)
}

type result struct {
	Type, What, Detail string `json:",omitempty"`
	Values, Decodes    int
	Accepted, Rejected int
	Errors, Known      int
}

func main() {
	seed, _ := strconv.ParseInt(os.Args[1], 10, 64)
	count, _ := strconv.Atoi(os.Args[2])
	out := json.NewEncoder(os.Stdout)
	var sum result
	for _, proto := range gen.Types {
		t := reflect.TypeOf(proto).Elem()
		if f := check(t, rand.New(rand.NewSource(seed)), count, &sum); f != nil {
			f.Type = t.Name()
			out.Encode(f)
		}
	}
	out.Encode(sum)
}

func check(t reflect.Type, r *rand.Rand, count int, sum *result) (fail *result) {
	state := ""
	defer func() {
		if p := recover(); p != nil {
			fail = &result{What: "panic", Detail: fmt.Sprintf("%v in %s", p, state)}
		}
	}()
	for n := 0; n < count; n++ {
		v := reflect.New(t)
		if n > 0 {
			fill(v.Elem(), r, []int{0, 0, 30}[r.Intn(3)])
		}
		sum.Values++
		lossy := false
		want, werr := enc(v.Elem(), 0, &lossy)
		state = "encoding " + show(v.Interface())
		var b bytes.Buffer
		err := v.Interface().(rlp.Encoder).EncodeRLP(&b)
		if (err != nil) != (werr != nil) {
			return &result{What: "encode", Detail: fmt.Sprintf("%s: error %v, want %v", show(v.Interface()), err, werr)}
		}
		if werr != nil {
			sum.Errors++
			continue
		}
		if !bytes.Equal(b.Bytes(), want) {
			return &result{What: "encode", Detail: fmt.Sprintf("%s: %x, want %x", show(v.Interface()), b.Bytes(), want)}
		}
		// the encoder as part of a bigger value
		var outer bytes.Buffer
		w := rlp.NewEncoderBuffer(&outer)
		m := w.List()
		err = v.Interface().(rlp.Encoder).EncodeRLP(w)
		w.ListEnd(m)
		w.Flush()
		if ww := append(head(0xC0, len(want)), want...); err != nil || !bytes.Equal(outer.Bytes(), ww) {
			return &result{What: "encode nested", Detail: fmt.Sprintf("%s: %x, error %v, want %x", show(v.Interface()), outer.Bytes(), err, ww)}
		}
		in := want
		for k := 0; k < 5; k++ {
			switch {
			case k == 0:
			case k <= 2:
				in = mutate(r, want)
			default:
				in = restructure(r, want)
			}
			sum.Decodes++
			state = fmt.Sprintf("decoding %x", in)
			f, ok := decode(t, in, sum)
			if f != nil {
				return f
			}
			if k == 0 && !lossy && ok.IsValid() && !same(ok.Elem(), v.Elem()) {
				return &result{What: "round trip", Detail: fmt.Sprintf("%s encodes as %x, reads back as %s", show(v.Interface()), want, show(ok.Interface()))}
			}
			if k == 0 && !lossy && !ok.IsValid() {
				return &result{What: "round trip", Detail: fmt.Sprintf("%s encodes as %x, which is rejected", show(v.Interface()), want)}
			}
		}
	}
	return nil
}

// decode compares the generated decoder with the reference; the second result
// is the reference value if the input is acceptable.
func decode(t reflect.Type, in []byte, sum *result) (*result, reflect.Value) {
	got := reflect.New(t)
	s := rlp.NewBytesStream(append([]byte{}, in...))
	err := got.Interface().(rlp.Decoder).DecodeRLP(s)
	detail := ""
	for _, quirk := range []bool{false, true} {
		w := reflect.New(t)
		c := &cursor{in: in, end: len(in), quirk: quirk}
		werr := dec(w.Elem(), c, 0)
		switch {
		case (err != nil) != (werr != nil):
			detail += fmt.Sprintf("%x: error %v, want %v; ", in, err, werr)
		case err == nil && s.Rest() != len(in)-c.pos:
			detail += fmt.Sprintf("%x: %d bytes left, want %d; ", in, s.Rest(), len(in)-c.pos)
		case err == nil && !same(got.Elem(), w.Elem()):
			detail += fmt.Sprintf("%x: %s, want %s; ", in, show(got.Interface()), show(w.Interface()))
		case quirk:
			// the finding: report the reference value as unavailable
			sum.Known++
			w = reflect.New(t)
			if dec(w.Elem(), &cursor{in: in, end: len(in)}, 0) == nil {
				return nil, w
			}
			return nil, reflect.Value{}
		case err == nil:
			if s.Open() != 0 {
				return &result{What: "decode", Detail: fmt.Sprintf("%x: %d lists left open", in, s.Open())}, w
			}
			sum.Accepted++
			return nil, w
		default:
			sum.Rejected++
			return nil, reflect.Value{}
		}
	}
	return &result{What: "decode", Detail: strings.TrimSuffix(detail, "; ")}, reflect.Value{}
}

var _ = io.EOF
