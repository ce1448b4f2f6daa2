// Package lg generates log records together with what their values must read
// as, and parses log lines back.
package lg

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"flychain/log"
	"flychain/rlp/zzverif/vh"

	"github.com/go-stack/stack"
	"pgregory.net/rapid"
)

// ErrorKey is the documented key of malformed context.
const ErrorKey = "LOG15_ERROR"

// TimeFormat is how times read in log lines.
const TimeFormat = "2006-01-02T15:04:05-0700"

// Val is a value and its expected readings (before any escaping).
type Val struct {
	V    any
	Kind string
	Log  string // in logfmt
	Term string // on the terminal and in the ordered JSON format
	JSON string // in plain JSON: the text, or the number's text
	Num  bool   // in plain JSON it is a number
	NoJS bool   // plain JSON cannot represent it
}

func same(v any, kind, s string) Val { return Val{V: v, Kind: kind, Log: s, Term: s, JSON: s} }

// Commas inserts thousands separators into decimal text of six or more digits.
func Commas(s string) string {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	if len(s) >= 6 {
		out := ""
		for len(s) > 3 {
			out = "," + s[len(s)-3:] + out
			s = s[:len(s)-3]
		}
		s += out
	}
	if neg {
		s = "-" + s
	}
	return s
}

type namedInt int
type namedStr string
type pair struct {
	A int
	B string
}

type strVal struct{ s string }

func (s strVal) String() string { return s.s }

type strPtr struct{ s string }

func (s *strPtr) String() string { return s.s } // panics on nil

type tolPtr struct{ s string }

func (s *tolPtr) String() string {
	if s == nil {
		return "tolerant = nil"
	}
	return s.s
}

type errVal struct{ s string }

func (e errVal) Error() string  { return e.s }
func (e errVal) String() string { return "not this" }

type errPtr struct{ s string }

func (e *errPtr) Error() string { return e.s } // panics on nil

type termVal struct{ s, t string }

func (v termVal) String() string         { return v.s }
func (v termVal) TerminalString() string { return v.t }

type termPtr struct{ s, t string }

func (v *termPtr) String() string         { return v.s }
func (v *termPtr) TerminalString() string { return v.t }

type termOnly struct{ T string }

func (v termOnly) TerminalString() string { return v.T }

// Int draws a signed integer with interesting digit counts.
func Int(t *rapid.T, label string) int64 {
	v := int64(vh.U64(t, label))
	if rapid.Bool().Draw(t, label+"-neg") {
		v = -v
	}
	return v
}

// BigInt draws a big integer of either sign.
func BigInt(t *rapid.T, label string) *big.Int {
	var b *big.Int
	if rapid.IntRange(0, 2).Draw(t, label+"-bk") == 0 { // around powers of ten
		b = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(rapid.IntRange(0, 60).Draw(t, label+"-p"))), nil)
		b.Mul(b, big.NewInt(int64(rapid.IntRange(1, 9).Draw(t, label+"-m"))))
		b.Add(b, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(t, label+"-d"))))
	} else {
		b = vh.Big(t, 300, label)
	}
	if rapid.Bool().Draw(t, label+"-neg") {
		b = new(big.Int).Neg(b)
	}
	return b
}

// Float draws a float, special ones included.
func Float(t *rapid.T, label string) float64 {
	switch rapid.IntRange(0, 4).Draw(t, label+"-fk") {
	case 0:
		return rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64}).Draw(t, label)
	case 1:
		return float64(rapid.IntRange(-2000, 2000).Draw(t, label)) / 2000
	case 2:
		return float64(Int(t, label)) / 1000
	default:
		return rapid.Float64().Draw(t, label)
	}
}

// Num draws a numeric or boolean value.
func Num(t *rapid.T, label string) Val {
	wide := func(v any, kind, s string) Val {
		return Val{V: v, Kind: kind, Log: Commas(s), Term: Commas(s), JSON: s, Num: true}
	}
	narrow := func(v any, kind, s string) Val {
		return Val{V: v, Kind: kind, Log: s, Term: s, JSON: s, Num: true}
	}
	dec := func(v int64) string { return big.NewInt(v).String() }
	udec := func(v uint64) string { return new(big.Int).SetUint64(v).String() }
	switch rapid.IntRange(0, 13).Draw(t, label+"-num") {
	case 0:
		v := int(Int(t, label))
		return wide(v, "int", dec(int64(v)))
	case 1:
		v := int8(Int(t, label))
		return narrow(v, "int8", dec(int64(v)))
	case 2:
		v := int16(Int(t, label))
		return narrow(v, "int16", dec(int64(v)))
	case 3:
		v := int32(Int(t, label))
		return wide(v, "int32", dec(int64(v)))
	case 4:
		v := Int(t, label)
		return wide(v, "int64", dec(v))
	case 5:
		v := uint(vh.U64(t, label))
		return wide(v, "uint", udec(uint64(v)))
	case 6:
		v := uint8(vh.U64(t, label))
		return narrow(v, "uint8", udec(uint64(v)))
	case 7:
		v := uint16(vh.U64(t, label))
		return narrow(v, "uint16", udec(uint64(v)))
	case 8:
		v := uint32(vh.U64(t, label))
		return wide(v, "uint32", udec(uint64(v)))
	case 9:
		v := vh.U64(t, label)
		return wide(v, "uint64", udec(v))
	case 10:
		v := BigInt(t, label)
		s := v.String()
		return Val{V: v, Kind: "big", Log: Commas(s), Term: Commas(s), JSON: s}
	case 11:
		v := Float(t, label)
		s := strconv.FormatFloat(v, 'f', 3, 64)
		return Val{V: v, Kind: "float64", Log: s, Term: s, JSON: strconv.FormatFloat(v, 'g', -1, 64), Num: true, NoJS: math.IsNaN(v) || math.IsInf(v, 0)}
	case 12:
		v := float32(Float(t, label))
		s := strconv.FormatFloat(float64(v), 'f', 3, 64)
		return Val{V: v, Kind: "float32", Log: s, Term: s, JSON: strconv.FormatFloat(float64(v), 'g', -1, 32), Num: true, NoJS: math.IsNaN(float64(v)) || math.IsInf(float64(v), 0)}
	default:
		v := rapid.Bool().Draw(t, label)
		return same(v, "bool", strconv.FormatBool(v))
	}
}

// Text draws a text, now and then a long one.
func Text(t *rapid.T, max int, label string) string {
	s := vh.Str(t, max, label)
	if rapid.IntRange(0, 29).Draw(t, label+"-long") != 29 {
		return s
	}
	n := rapid.SampledFrom([]int{128, 256, 512, 1024, 4096, 8192}).Draw(t, label+"-size") + rapid.IntRange(-40, 40).Draw(t, label+"-off")
	return strings.Repeat("long"+s, n/(len(s)+4)+1) + vh.Str(t, max, label+"-tail")
}

// Any draws a value of any kind.
func Any(t *rapid.T, label string) Val {
	str := func(l string) string { return Text(t, 60, label+l) }
	switch rapid.IntRange(0, 13).Draw(t, label+"-vk") {
	case 0, 1, 2:
		return Num(t, label)
	case 3, 4, 5:
		s := str("-s")
		return same(s, "string", s)
	case 6: // nils
		switch rapid.IntRange(0, 6).Draw(t, label+"-nil") {
		case 0:
			return Val{V: nil, Kind: "nil", Log: "nil", Term: "nil", JSON: "<nil>"}
		case 1:
			return same((*big.Int)(nil), "nil", "<nil>")
		case 2:
			return same((*strPtr)(nil), "nil", "nil")
		case 3:
			return same((*errPtr)(nil), "nil", "nil")
		case 4:
			return same((*tolPtr)(nil), "nil", "tolerant = nil")
		case 5:
			return same((*termPtr)(nil), "nil", "nil")
		default:
			return same((*pair)(nil), "nil", "<nil>")
		}
	case 7:
		v := Time(t, label)
		return same(v, "time", v.Format(TimeFormat))
	case 8:
		s := str("-e")
		switch rapid.IntRange(0, 2).Draw(t, label+"-err") {
		case 0:
			return same(errors.New(s), "error", s)
		case 1:
			return same(errVal{s}, "error", s)
		default:
			return same(&errPtr{s}, "error", s)
		}
	case 9:
		s := str("-g")
		switch rapid.IntRange(0, 2).Draw(t, label+"-str") {
		case 0:
			return same(strVal{s}, "stringer", s)
		case 1:
			return same(&strPtr{s}, "stringer", s)
		default:
			return same(&tolPtr{s}, "stringer", s)
		}
	case 10:
		s, u := str("-g"), str("-t")
		switch rapid.IntRange(0, 2).Draw(t, label+"-trm") {
		case 0:
			return Val{V: termVal{s, u}, Kind: "term", Log: s, Term: u, JSON: s}
		case 1:
			return Val{V: &termPtr{s, u}, Kind: "term", Log: s, Term: u, JSON: s}
		default:
			p := fmt.Sprintf("%+v", termOnly{u})
			return Val{V: termOnly{u}, Kind: "term", Log: p, Term: u, JSON: p}
		}
	case 11:
		v := namedInt(Int(t, label))
		return same(v, "named", strconv.FormatInt(int64(v), 10))
	case 12:
		s := str("-n")
		return same(namedStr(s), "named", s)
	default:
		var v any
		switch rapid.IntRange(0, 5).Draw(t, label+"-comp") {
		case 0:
			v = vh.Bytes(t, 8, label)
		case 1:
			v = []string{str("-1"), str("-2")}
		case 2:
			v = map[string]int{str("-k"): 7}
		case 3:
			v = pair{3, str("-f")}
		case 4:
			v = []any{nil, 1.5, str("-x")}
		default:
			v = time.Duration(Int(t, label))
			return same(v, "duration", v.(time.Duration).String())
		}
		return same(v, "composite", fmt.Sprintf("%+v", v))
	}
}

// Time draws a time between years 1 and 9999 in any zone.
func Time(t *rapid.T, label string) time.Time {
	sec := rapid.Int64Range(-62135596800+86400, 253402300799-86400).Draw(t, label+"-sec")
	ns := rapid.SampledFrom([]int64{0, 1, 999, 499999, 500000, 999499999, 999500000, 999999999}).Draw(t, label+"-ns")
	off := rapid.SampledFrom([]int{0, 60, -300, 345, -720, 840, 90}).Draw(t, label+"-off")
	tm := time.Unix(sec, ns)
	if off == 0 {
		return tm.UTC()
	}
	return tm.In(time.FixedZone("", off*60))
}

// Key draws a context key.
func Key(t *rapid.T, label string) string {
	if rapid.IntRange(0, 2).Draw(t, label+"-kk") == 0 {
		return vh.Str(t, 40, label)
	}
	return vh.Ident(t, label)
}

// BadKey draws a key that is not a string.
func BadKey(t *rapid.T, label string) any {
	switch rapid.IntRange(0, 4).Draw(t, label+"-bad") {
	case 0:
		return int(Int(t, label))
	case 1:
		return nil
	case 2:
		return namedStr("odd key")
	case 3:
		return strVal{vh.Str(t, 20, label)}
	default:
		return errors.New("key\n=x")
	}
}

// Pair is one context pair; Bad: its key is not a string.
type Pair struct {
	Key    string
	RawKey any
	Bad    bool
	Val    Val
}

// Rec is a generated record.
type Rec struct {
	R     *log.Record
	Pairs []Pair
}

var levels = []log.Lvl{log.LvlCrit, log.LvlError, log.LvlWarn, log.LvlInfo, log.LvlDebug, log.LvlTrace}

// Level draws a level.
func Level(t *rapid.T, label string) log.Lvl { return rapid.SampledFrom(levels).Draw(t, label) }

// Call draws a call site of this package, or none.
func Call(t *rapid.T, label string) stack.Call {
	switch rapid.IntRange(0, 3).Draw(t, label+"-site") {
	case 0:
		return stack.Call{}
	case 1:
		return siteA()
	case 2:
		return func() stack.Call { return stack.Caller(0) }()
	default:
		return siteWithAVeryLongFunctionNameIndeed()
	}
}

func siteA() stack.Call { return stack.Caller(0) }
func siteWithAVeryLongFunctionNameIndeed() stack.Call {
	return stack.Caller(1)
}

// Record draws a record; message text included.
func Record(t *rapid.T, maxPairs int) *Rec {
	rec := &Rec{R: &log.Record{
		Time:     Time(t, "time"),
		Lvl:      Level(t, "lvl"),
		Msg:      Text(t, 80, "msg"),
		Call:     Call(t, "call"),
		KeyNames: log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"},
	}}
	if rapid.IntRange(0, 4).Draw(t, "names") == 0 {
		rec.R.KeyNames = log.RecordKeyNames{Time: "the time", Msg: "mess=age", Lvl: "\"l", Ctx: "con text"}
	}
	n := rapid.IntRange(0, maxPairs).Draw(t, "pairs")
	if rapid.IntRange(0, 29).Draw(t, "many") == 29 {
		n = rapid.IntRange(7, 40).Draw(t, "npairs")
	}
	for i := n; i > 0; i-- {
		p := Pair{Val: Any(t, "v")}
		if rapid.IntRange(0, 11).Draw(t, "bad") == 0 {
			p.Bad, p.RawKey = true, BadKey(t, "bk")
		} else {
			p.Key = Key(t, "k")
			p.RawKey = p.Key
		}
		rec.Pairs = append(rec.Pairs, p)
		rec.R.Ctx = append(rec.R.Ctx, p.RawKey, p.Val.V)
	}
	return rec
}

// Describe summarises a record for the evidence.
func (r *Rec) Describe() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%v %q", r.R.Lvl, r.R.Msg)
	for _, p := range r.Pairs {
		fmt.Fprintf(&sb, " %q:%s:%q", p.Key, p.Val.Kind, p.Val.Log)
	}
	return sb.String()
}

// KV is a parsed pair.
type KV struct{ K, V string }

func token(s string, stops string) (string, string, error) {
	if strings.HasPrefix(s, `"`) {
		q, err := strconv.QuotedPrefix(s)
		if err != nil {
			return "", "", fmt.Errorf("bad quoting at %.60q", s)
		}
		u, err := strconv.Unquote(q)
		return u, s[len(q):], err
	}
	i := strings.IndexAny(s, stops)
	if i < 0 {
		i = len(s)
	}
	return s[:i], s[i:], nil
}

// ParsePairs reads "k=v k=v ..." with any amount of padding between pairs.
func ParsePairs(s string) ([]KV, error) {
	var out []KV
	for {
		s = strings.TrimLeft(s, " ")
		if s == "" {
			return out, nil
		}
		k, rest, err := token(s, "= ")
		if err != nil {
			return nil, err
		}
		if !strings.HasPrefix(rest, "=") {
			return nil, fmt.Errorf("no '=' after the key at %.60q", s)
		}
		v, rest, err := token(rest[1:], " ")
		if err != nil {
			return nil, err
		}
		if rest != "" && rest[0] != ' ' {
			return nil, fmt.Errorf("junk after a value at %.60q", rest)
		}
		out = append(out, KV{k, v})
		s = rest
	}
}

// Unescape reads one escaped value.
func Unescape(s string) (string, error) {
	v, rest, err := token(s, "")
	if err == nil && rest != "" {
		err = fmt.Errorf("junk after the closing quote in %q", s)
	}
	return v, err
}

// Printable reports whether s has only printable runes and plain spaces.
func Printable(s string) bool {
	if !utf8.ValidString(s) {
		return false
	}
	for _, r := range s {
		if !strconv.IsPrint(r) {
			return false
		}
	}
	return true
}
