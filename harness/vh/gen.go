package vh

import (
	"encoding/json"
	"math/big"
	"math/bits"
	"os"
	"strings"

	"pgregory.net/rapid"
)

// Dict holds literals of the code under test (and their neighbours), which
// generators mix in so that special-cased values are reached.
type dict struct {
	Ints []string `json:"ints"`
	Strs []string `json:"strs"`
}

var (
	dictInts []uint64
	dictStrs []string
)

func init() {
	if b, err := os.ReadFile(os.Getenv("VH_DICT")); err == nil {
		var d dict
		if json.Unmarshal(b, &d) == nil {
			for _, s := range d.Ints {
				if v, ok := new(big.Int).SetString(s, 0); ok && v.IsUint64() {
					dictInts = append(dictInts, v.Uint64())
				}
			}
			dictStrs = d.Strs
		}
	}
	if len(dictInts) == 0 {
		dictInts = []uint64{0, 1, 2, 8, 16, 32, 64, 255, 256}
	}
	if len(dictStrs) == 0 {
		dictStrs = []string{"0x", "\n", "="}
	}
}

// DictStrs returns the string literals of the code under test.
func DictStrs() []string { return dictStrs }

// Len draws a length in [0,max], biased to small ones, literals and boundaries.
func Len(t *rapid.T, max int, label string) int {
	switch k := rapid.IntRange(0, 9).Draw(t, label+"-k"); {
	case k < 5:
		m := 9
		if max < m {
			m = max
		}
		return rapid.IntRange(0, m).Draw(t, label)
	case k < 7:
		v := int(DictInt(t, label)%uint64(max+1)) + rapid.IntRange(-1, 1).Draw(t, label+"-d")
		if v < 0 {
			v = 0
		}
		if v > max {
			v = max
		}
		return v
	default:
		return rapid.IntRange(0, max).Draw(t, label)
	}
}

// DictInt draws an integer literal of the code under test.
func DictInt(t *rapid.T, label string) uint64 {
	return rapid.SampledFrom(dictInts).Draw(t, label+"-lit")
}

// U64 draws an unsigned integer of random width, near powers of two, near
// powers of ten or near a literal.
func U64(t *rapid.T, label string) uint64 {
	switch rapid.IntRange(0, 5).Draw(t, label+"-k") {
	case 0:
		return rapid.Uint64Range(0, 300).Draw(t, label)
	case 1:
		return (uint64(1) << rapid.IntRange(0, 63).Draw(t, label+"-s")) + uint64(rapid.IntRange(-2, 2).Draw(t, label+"-d"))
	case 2:
		return DictInt(t, label) + uint64(rapid.IntRange(-1, 1).Draw(t, label+"-d"))
	case 3:
		v := uint64(1)
		for i := rapid.IntRange(0, 19).Draw(t, label+"-p"); i > 0; i-- {
			v *= 10
		}
		v *= rapid.Uint64Range(1, 9).Draw(t, label+"-m")
		return v + uint64(rapid.IntRange(-1, 1).Draw(t, label+"-d"))
	default:
		w := rapid.IntRange(1, 64).Draw(t, label+"-w")
		v := rapid.Uint64().Draw(t, label)
		// spread the raw value so that high bits are used, too
		v ^= bits.RotateLeft64(v*0x9E3779B97F4A7C15, 31)
		return v >> (64 - w)
	}
}

// Big draws a non-negative integer of at most maxBits bits.
func Big(t *rapid.T, maxBits int, label string) *big.Int {
	switch rapid.IntRange(0, 6).Draw(t, label+"-k") {
	case 0:
		return new(big.Int).SetUint64(U64(t, label))
	case 1, 2: // 2^k + small
		v := new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, maxBits).Draw(t, label+"-s")))
		v.Add(v, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, label+"-d"))))
		if v.Sign() < 0 {
			v.SetInt64(0)
		}
		if v.BitLen() > maxBits {
			v.Rsh(v, uint(v.BitLen()-maxBits))
		}
		return v
	case 3: // sparse: few set bits
		v := new(big.Int)
		for i := rapid.IntRange(0, 4).Draw(t, label+"-n"); i > 0; i-- {
			v.SetBit(v, rapid.IntRange(0, maxBits-1).Draw(t, label+"-b"), 1)
		}
		return v
	default:
		nb := rapid.IntRange(0, (maxBits+7)/8).Draw(t, label+"-n")
		b := Raw(t, nb, label)
		v := new(big.Int).SetBytes(b)
		if v.BitLen() > maxBits {
			v.Rsh(v, uint(v.BitLen()-maxBits))
		}
		return v
	}
}

// Raw draws exactly n bytes.
func Raw(t *rapid.T, n int, label string) []byte {
	b := make([]byte, n)
	switch rapid.IntRange(0, 7).Draw(t, label+"-c") {
	case 0: // zeros
	case 1: // zeros with a few others
		if n > 0 {
			for i := rapid.IntRange(1, 3).Draw(t, label+"-m"); i > 0; i-- {
				b[rapid.IntRange(0, n-1).Draw(t, label+"-i")] = rapid.Byte().Draw(t, label+"-b")
			}
		}
	case 2:
		v := rapid.Byte().Draw(t, label+"-b")
		for i := range b {
			b[i] = v
		}
	default:
		// one seed word expanded: cheap for long inputs, still shrinkable
		if n <= 40 {
			copy(b, rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label))
		} else {
			s := rapid.Uint64().Draw(t, label+"-seed")
			for i := range b {
				s = s*6364136223846793005 + 1442695040888963407
				b[i] = byte(s >> 56)
			}
		}
	}
	return b
}

// Bytes draws up to max bytes.
func Bytes(t *rapid.T, max int, label string) []byte { return Raw(t, Len(t, max, label+"-len"), label) }

var alphabets = []string{
	"abcxyzABC019 _-./",
	" =\"\\\t\n\r\x00\x1b\x7f{}[],:'%",
	"é中文\u2028\U0001F600ñ\u00a0",
	"0123456789abcdefxXABCDEF",
}

// Str draws a string of any kind of content, including control characters,
// invalid UTF-8 and literals of the code under test.
func Str(t *rapid.T, max int, label string) string {
	var sb strings.Builder
	for i := rapid.IntRange(0, 4).Draw(t, label+"-parts"); i > 0 && sb.Len() < max; i-- {
		switch rapid.IntRange(0, 6).Draw(t, label+"-k") {
		case 0:
			sb.WriteString(rapid.SampledFrom(dictStrs).Draw(t, label+"-lit"))
		case 1:
			sb.WriteString(rapid.StringN(0, 12, -1).Draw(t, label))
		case 2:
			sb.Write(rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, label+"-raw"))
		default:
			al := []rune(rapid.SampledFrom(alphabets).Draw(t, label+"-al"))
			for n := rapid.IntRange(0, 14).Draw(t, label+"-n"); n > 0; n-- {
				sb.WriteRune(rapid.SampledFrom(al).Draw(t, label+"-r"))
			}
		}
	}
	s := sb.String()
	if len(s) > max {
		s = s[:max]
	}
	return s
}

// Ident draws an identifier-like string.
func Ident(t *rapid.T, label string) string {
	return rapid.StringMatching(`[a-zA-Z_][a-zA-Z0-9_.-]{0,11}`).Draw(t, label)
}

// Hex draws n hex digits in mixed case.
func Hex(t *rapid.T, n int, label string) string {
	b := Raw(t, n, label)
	m := rapid.IntRange(0, 2).Draw(t, label+"-case")
	out := make([]byte, n)
	for i := range b {
		ds := "0123456789abcdef"
		if m == 1 || (m == 2 && b[i]&0x80 != 0) {
			ds = "0123456789ABCDEF"
		}
		out[i] = ds[b[i]&15]
	}
	return string(out)
}

// Caught runs f and returns the panic value, if any.
func Caught(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}
