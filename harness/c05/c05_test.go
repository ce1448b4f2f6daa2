// Package c05 checks property C05: byte-slice helpers.
package c05

import (
	"bytes"
	"encoding/hex"
	"strings"
	"testing"

	"flychain/common"
	"flychain/common/hexutil"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

// guarded draws a slice with spare capacity on both sides and returns a
// function that verifies neither it nor its surroundings changed.
func guarded(c *vh.C, max int) ([]byte, func(what string)) {
	b := vh.Bytes(c.T, max, "b")
	if rapid.Bool().Draw(c.T, "zeros") { // leading and trailing zero runs
		b = append(make([]byte, rapid.IntRange(0, 5).Draw(c.T, "lz")), b...)
		b = append(b, make([]byte, rapid.IntRange(0, 5).Draw(c.T, "tz"))...)
	}
	back := bytes.Repeat([]byte{0xEE}, len(b)+64)
	copy(back[8:], b)
	keep := append([]byte(nil), back...)
	s := back[8 : 8+len(b)]
	return s, func(what string) {
		if !bytes.Equal(back, keep) {
			c.Fatalf("%s modified its input or the memory behind it: %x -> %x", what, keep, back)
		}
	}
}

func TestPadTrimCopy(t *testing.T) {
	vh.Run(t, vh.Opt{N: 50000, Rule: "random slices (with zero runs at both ends and spare capacity) padded to random lengths, trimmed and copied; non-trivial: a non-empty slice"}, func(c *vh.C) {
		b, intact := guarded(c, 300)
		l := rapid.OneOf(rapid.IntRange(-3, 40), rapid.IntRange(-3, 340), rapid.Just(len(b)), rapid.Just(len(b)+1), rapid.Just(len(b)-1)).Draw(c.T, "l")
		c.Note(len(b) > 0, "%x %d", b, l)
		n := l
		if len(b) > n {
			n = len(b)
		}
		left := append(make([]byte, n-len(b)), b...)
		right := append(append([]byte(nil), b...), make([]byte, n-len(b))...)
		if got := common.LeftPadBytes(b, l); !bytes.Equal(got, left) {
			c.Fatalf("LeftPadBytes(%x, %d) = %x, want %x", b, l, got, left)
		}
		intact("LeftPadBytes")
		if got := common.RightPadBytes(b, l); !bytes.Equal(got, right) {
			c.Fatalf("RightPadBytes(%x, %d) = %x, want %x", b, l, got, right)
		}
		intact("RightPadBytes")
		i, j := 0, len(b)
		for i < len(b) && b[i] == 0 {
			i++
		}
		for j > 0 && b[j-1] == 0 {
			j--
		}
		if got := common.TrimLeftZeroes(b); !bytes.Equal(got, b[i:]) {
			c.Fatalf("TrimLeftZeroes(%x) = %x", b, got)
		}
		if got := common.TrimRightZeroes(b); !bytes.Equal(got, b[:j]) {
			c.Fatalf("TrimRightZeroes(%x) = %x", b, got)
		}
		intact("Trim")
		cp := common.CopyBytes(b)
		if !bytes.Equal(cp, b) {
			c.Fatalf("CopyBytes(%x) = %x", b, cp)
		}
		for k := range cp {
			cp[k] ^= 0xFF
		}
		cp = append(cp, 1, 2, 3)
		intact("CopyBytes (or its copy aliases the source)")
		if common.CopyBytes(nil) != nil || common.CopyBytes(b[:0]) == nil {
			c.Fatalf("CopyBytes does not keep nil and empty apart")
		}
	})
}

func isHex(s string) bool { return strings.Trim(s, "0123456789abcdefABCDEF") == "" }

func TestHex(t *testing.T) {
	vh.Run(t, vh.Opt{N: 50000, Rule: "random bytes to hex and back, with optional prefix, random case and odd digit counts, and to fixed lengths; non-trivial: at least one byte"}, func(c *vh.C) {
		b, intact := guarded(c, 120)
		c.Note(len(b) > 0, "%x", b)
		d := hex.EncodeToString(b)
		if got := common.Bytes2Hex(b); got != d {
			c.Fatalf("Bytes2Hex(%x) = %q", b, got)
		}
		intact("Bytes2Hex")
		m := rapid.Uint64().Draw(c.T, "case")
		s := []byte(d)
		for i := range s {
			if s[i] >= 'a' && m>>(uint(i)%61)&1 == 1 {
				s[i] -= 32
			}
		}
		if got := common.Hex2Bytes(string(s)); !bytes.Equal(got, b) {
			c.Fatalf("Hex2Bytes(%q) = %x", s, got)
		}
		flen := rapid.OneOf(rapid.IntRange(0, 130), rapid.IntRange(0, 8), rapid.Just(len(b)), rapid.Just(len(b)+1), rapid.Just(max(len(b)-1, 0))).Draw(c.T, "flen")
		want := make([]byte, flen)
		for i := 0; i < flen && i < len(b); i++ {
			want[flen-1-i] = b[len(b)-1-i]
		}
		if got := common.Hex2BytesFixed(string(s), flen); !bytes.Equal(got, want) || len(got) != flen {
			c.Fatalf("Hex2BytesFixed(%q, %d) = %x, want %x", s, flen, got, want)
		}
		p := rapid.SampledFrom([]string{"", "0x", "0X"}).Draw(c.T, "prefix")
		odd := string(s)
		if len(odd) > 0 && rapid.Bool().Draw(c.T, "odd") {
			odd = odd[1:]
		}
		if p == "" && (strings.HasPrefix(odd, "0x") || strings.HasPrefix(odd, "0X")) {
			return
		}
		e := odd
		if len(e)%2 == 1 {
			e = "0" + e
		}
		wb, _ := hex.DecodeString(e)
		if got := common.FromHex(p + odd); !bytes.Equal(got, wb) {
			c.Fatalf("FromHex(%q) = %x, want %x", p+odd, got, wb)
		}
	})
}

func TestParseHexOrString(t *testing.T) {
	vh.Run(t, vh.Opt{N: 40000, Rule: "hex, malformed hex, and arbitrary strings; non-trivial: not empty"}, func(c *vh.C) {
		var s string
		switch rapid.IntRange(0, 2).Draw(c.T, "kind") {
		case 0:
			s = rapid.SampledFrom([]string{"0x", "0X"}).Draw(c.T, "p") + vh.Hex(c.T, vh.Len(c.T, 60, "n"), "h")
		case 1:
			d := []byte(vh.Hex(c.T, vh.Len(c.T, 60, "n"), "h") + "0")
			d[rapid.IntRange(0, len(d)-1).Draw(c.T, "pos")] = rapid.Byte().Draw(c.T, "c")
			s = rapid.SampledFrom([]string{"0x", "0X", "", "0", "x"}).Draw(c.T, "p") + string(d)
		default:
			s = vh.Str(c.T, 60, "s")
		}
		c.Note(s != "", "%q", s)
		got, err := common.ParseHexOrString(s)
		pref := strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X")
		switch {
		case s == "":
			if err == nil {
				c.Fatalf("ParseHexOrString of the empty string accepted")
			}
		case !pref:
			if err != nil || string(got) != s {
				c.Fatalf("ParseHexOrString(%q) = %x, %v; want the raw bytes", s, got, err)
			}
		case len(s)%2 == 0 && isHex(s[2:]):
			want, _ := hex.DecodeString(s[2:])
			if err != nil || !bytes.Equal(got, want) {
				c.Fatalf("ParseHexOrString(%q) = %x, %v; want %x", s, got, err, want)
			}
		default:
			if err == nil {
				c.Fatalf("ParseHexOrString(%q) accepted as %x", s, got)
			}
			if err != hexutil.ErrSyntax && err != hexutil.ErrOddLength {
				c.Fatalf("ParseHexOrString(%q): error %v", s, err)
			}
		}
	})
}
