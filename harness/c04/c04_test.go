// Package c04 checks property C04: printed forms of addresses and hashes.
package c04

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"flychain/common"
	"flychain/rlp/zzverif/vh"

	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"
)

// eip55 is the definition in EIP-55.
func eip55(a []byte) string {
	low := hex.EncodeToString(a)
	k := sha3.NewLegacyKeccak256()
	k.Write([]byte(low))
	hh := hex.EncodeToString(k.Sum(nil))
	out := []byte(low)
	for i := range out {
		if out[i] >= 'a' && hh[i] >= '8' {
			out[i] -= 'a' - 'A'
		}
	}
	return "0x" + string(out)
}

func addr(c *vh.C) common.Address {
	var a common.Address
	if rapid.IntRange(0, 3).Draw(c.T, "letters") == 0 { // many letters
		for i, x := range vh.Raw(c.T, 20, "a") {
			a[i] = 0xaa | x
		}
	} else {
		copy(a[:], vh.Raw(c.T, 20, "a"))
	}
	return a
}

func TestAddressPrinting(t *testing.T) {
	vh.Run(t, vh.Opt{N: 12000, Rule: "a random address through every printing path and format verb; non-trivial: its checksum form has an upper-case letter"}, func(c *vh.C) {
		a := addr(c)
		sum := eip55(a[:])
		low := strings.ToLower(sum[2:])
		c.Note(sum[2:] != low, "%x", a[:])
		pp := &a
		for what, got := range map[string]string{
			"Hex": a.Hex(), "String": a.String(), "%v": fmt.Sprintf("%v", a), "%s": fmt.Sprintf("%s", a), "%v ptr": fmt.Sprintf("%v", pp),
			"Sprint": fmt.Sprint(a), "%+v": fmt.Sprintf("%+v", a), "NewMixedcase": func() string { m := common.NewMixedcaseAddress(a); return m.Original() }(),
		} {
			if got != sum {
				c.Fatalf("address %x printed with %s as %q, want %q", a[:], what, got, sum)
			}
		}
		verbs(c, "address", a, a[:], sum)
		txt, err := a.MarshalText()
		if err != nil || string(txt) != "0x"+low {
			c.Fatalf("MarshalText of %x = %q, %v", a[:], txt, err)
		}
	})
}

func verbs(c *vh.C, what string, v any, raw []byte, text string) {
	low := hex.EncodeToString(raw)
	want := map[string]string{
		"%q": `"` + text + `"`, "%x": low, "%X": strings.ToUpper(low), "%#x": "0x" + low, "%#X": "0X" + strings.ToUpper(low),
		"%s|%v": text + "|" + text,
		"%t": "%!t(" + what + "=" + low + ")", "%e": "%!e(" + what + "=" + low + ")",
	}
	var dec bytes.Buffer
	dec.WriteByte('[')
	for i, b := range raw {
		if i > 0 {
			dec.WriteByte(' ')
		}
		fmt.Fprintf(&dec, "%d", b)
	}
	dec.WriteByte(']')
	want["%d"] = dec.String()
	for f, w := range want {
		var got string
		if strings.Contains(f, "|") {
			got = fmt.Sprintf(f, v, v)
		} else {
			got = fmt.Sprintf(f, v)
		}
		if got != w {
			c.Fatalf("%s %x with %s prints %q, want %q", what, raw, f, got, w)
		}
	}
}

func TestHashPrinting(t *testing.T) {
	vh.Run(t, vh.Opt{N: 12000, Rule: "a random hash through every printing path and format verb; non-trivial: not all zero"}, func(c *vh.C) {
		var h common.Hash
		copy(h[:], vh.Raw(c.T, 32, "h"))
		c.Note(h != common.Hash{}, "%x", h[:])
		want := "0x" + hex.EncodeToString(h[:])
		for what, got := range map[string]string{"Hex": h.Hex(), "String": h.String(), "%v": fmt.Sprintf("%v", h), "%s": fmt.Sprintf("%s", h), "ptr": fmt.Sprint(&h)} {
			if got != want {
				c.Fatalf("hash %x printed with %s as %q", h[:], what, got)
			}
		}
		verbs(c, "hash", h, h[:], want)
		if got, w := h.TerminalString(), hex.EncodeToString(h[:3])+".."+hex.EncodeToString(h[29:]); got != w {
			c.Fatalf("TerminalString of %x = %q, want %q", h[:], got, w)
		}
	})
}

func isHexAddr(s string) bool {
	if strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") {
		s = s[2:]
	}
	if len(s) != 40 {
		return false
	}
	return strings.Trim(s, "0123456789abcdefABCDEF") == ""
}

func TestMixedcase(t *testing.T) {
	vh.Run(t, vh.Opt{N: 30000, Rule: "address strings in checksum, lower, upper, random or nearly-checksum case, any prefix, wrong length or bad characters; accepted exactly when 40 hex digits with optional prefix; non-trivial: at least 38 characters"}, func(c *vh.C) {
		a := addr(c)
		s := []byte(eip55(a[:])[2:])
		mode := rapid.IntRange(0, 6).Draw(c.T, "mode")
		switch mode {
		case 0:
			s = bytes.ToLower(s)
		case 1:
			s = bytes.ToUpper(s)
		case 2: // flip one letter
			p := rapid.IntRange(0, 39).Draw(c.T, "pos")
			for i := 0; i < 40; i++ {
				if q := (p + i) % 40; s[q] > '9' {
					s[q] ^= 0x20
					break
				}
			}
		case 3:
			m := rapid.Uint64().Draw(c.T, "mask")
			for i := range s {
				if s[i] > '9' && m>>uint(i)&1 == 1 {
					s[i] ^= 0x20
				}
			}
		case 4:
			s[rapid.IntRange(0, 39).Draw(c.T, "pos")] = rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte("/:@G`gxX "))).Draw(c.T, "c")
		case 5:
			s = append(s, vh.Hex(c.T, rapid.IntRange(0, 3).Draw(c.T, "more"), "more")...)
			s = s[rapid.IntRange(0, 3).Draw(c.T, "cut"):]
		}
		str := rapid.SampledFrom([]string{"0x", "0x", "0x", "0X", "", "x", "0x0x"}).Draw(c.T, "prefix") + string(s)
		c.Note(len(str) >= 38, "%q", str)
		ok := isHexAddr(str)
		c.Class("mode=%d ok=%v", mode, ok)
		if common.IsHexAddress(str) != ok {
			c.Fatalf("IsHexAddress(%q) = %v", str, !ok)
		}
		m, err := common.NewMixedcaseAddressFromString(str)
		if (err == nil) != ok {
			c.Fatalf("NewMixedcaseAddressFromString(%q) error %v", str, err)
		}
		if ok {
			check(c, m, str)
		}
		// JSON: the prefix is required
		q, err := json.Marshal(str)
		if err != nil || string(q) != `"`+str+`"` {
			return
		}
		old := common.NewMixedcaseAddress(common.Address{1})
		j := old
		err = json.Unmarshal(q, &j)
		jok := ok && (strings.HasPrefix(str, "0x") || strings.HasPrefix(str, "0X"))
		if (err == nil) != jok {
			c.Fatalf("json.Unmarshal(%s) into MixedcaseAddress: %v", q, err)
		}
		if jok {
			check(c, &j, str)
		} else if j != old {
			c.Fatalf("json.Unmarshal(%s) failed but changed the destination", q)
		}
	})
}

func check(c *vh.C, m *common.MixedcaseAddress, str string) {
	digits := strings.TrimPrefix(strings.TrimPrefix(str, "0x"), "0X")
	raw, _ := hex.DecodeString(digits)
	a := m.Address()
	if !bytes.Equal(a[:], raw) {
		c.Fatalf("%q parsed as %x", str, a[:])
	}
	valid := str == eip55(raw)
	if m.ValidChecksum() != valid {
		c.Fatalf("%q: ValidChecksum() = %v", str, !valid)
	}
	if m.Original() != str {
		c.Fatalf("%q: Original() = %q", str, m.Original())
	}
	want := str + " [chksum INVALID]"
	if valid {
		want = str + " [chksum ok]"
	}
	if got := m.String(); got != want {
		c.Fatalf("%q: String() = %q", str, got)
	}
	js, err := json.Marshal(m)
	if err != nil || string(js) != `"0x`+digits+`"` {
		c.Fatalf("%q: json.Marshal = %s, %v", str, js, err)
	}
	var back common.MixedcaseAddress
	if err := json.Unmarshal(js, &back); err != nil || back.Address() != a || back.Original() != "0x"+digits {
		c.Fatalf("%q: re-read as %q, %v", str, back.Original(), err)
	}
}
