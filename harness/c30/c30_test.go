// Package c30 checks property C30: human-readable sizes, durations, ages, paths and JSON load errors.
package c30

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"flychain/common"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

func TestStorageSize(t *testing.T) {
	vh.Run(t, vh.Opt{N: 40000, Rule: "sizes around every unit and code literal, fractions, powers of two, huge, tiny, negative; non-trivial: over 1024"}, func(c *vh.C) {
		var v float64
		switch rapid.IntRange(0, 5).Draw(c.T, "k") {
		case 0:
			v = float64(vh.U64(c.T, "u"))
		case 1:
			v = math.Ldexp(float64(rapid.IntRange(1, 4096).Draw(c.T, "m")), rapid.IntRange(-4, 60).Draw(c.T, "e"))
		case 2: // near the thresholds
			v = math.Pow(1024, float64(rapid.IntRange(0, 5).Draw(c.T, "p")))
			switch rapid.IntRange(0, 4).Draw(c.T, "d") {
			case 0:
				v = math.Nextafter(v, 0)
			case 1:
				v = math.Nextafter(v, math.Inf(1))
			case 2:
				v--
			case 3:
				v++
			}
		case 3:
			v = float64(vh.DictInt(c.T, "d")) * float64(rapid.IntRange(0, 3000).Draw(c.T, "f")) / 1000
		case 4:
			v = rapid.Float64Range(0, 1e15).Draw(c.T, "f")
		default:
			v = -float64(vh.U64(c.T, "n"))
		}
		c.Note(v > 1024, "%v", v)
		units := []string{"B", "KiB", "MiB", "GiB", "TiB"}
		u := 0
		for u < 4 && v > math.Ldexp(1, 10*(u+1)) {
			u++
		}
		num := strconv.FormatFloat(math.Ldexp(v, -10*u), 'f', 2, 64)
		c.Class("%s", units[u])
		if got, w := common.StorageSize(v).String(), num+" "+units[u]; got != w {
			c.Fatalf("StorageSize(%v).String() = %q, want %q", v, got, w)
		}
		if got, w := common.StorageSize(v).TerminalString(), num+units[u]; got != w {
			c.Fatalf("StorageSize(%v).TerminalString() = %q, want %q", v, got, w)
		}
	})
}

func drawDur(t *rapid.T) time.Duration {
	unit := rapid.SampledFrom([]time.Duration{1, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour}).Draw(t, "unit")
	d := unit * time.Duration(rapid.IntRange(0, 2000).Draw(t, "n"))
	if rapid.Bool().Draw(t, "more") {
		d += time.Duration(rapid.Int64Range(0, 1e9).Draw(t, "ns"))
	}
	switch rapid.IntRange(0, 5).Draw(t, "dk") {
	case 0:
		d += time.Duration(rapid.IntRange(-2, 2).Draw(t, "d"))
	case 1:
		d = time.Duration(vh.U64(t, "any") >> 1)
	case 2:
		d -= d % time.Duration(rapid.SampledFrom([]int{1e2, 1e3, 1e4, 1e5, 1e6, 1e7}).Draw(t, "round"))
	}
	if rapid.IntRange(0, 4).Draw(t, "neg") == 0 {
		d = -d
	}
	return d
}

func TestPrettyDuration(t *testing.T) {
	vh.Run(t, vh.Opt{N: 40000, Rule: "durations of every magnitude and sign; non-trivial: more than three fractional digits"}, func(c *vh.C) {
		d := drawDur(c.T)
		full := d.String()
		want := full
		if dot := strings.IndexByte(full, '.'); dot >= 0 {
			end := dot + 1
			for end < len(full) && full[end] >= '0' && full[end] <= '9' {
				end++
			}
			if end-dot-1 > 3 {
				want = full[:dot+4] + full[end:]
			}
		}
		c.Note(want != full, "%d", int64(d))
		got := common.PrettyDuration(d).String()
		if got != want {
			c.Fatalf("PrettyDuration(%v) = %q, want %q", d, got, want)
		}
		if s := fmt.Sprint(common.PrettyDuration(d)); s != want {
			c.Fatalf("printed %q, want %q", s, want)
		}
		if back, err := time.ParseDuration(got); err != nil || absd(back) > absd(d) || absd(d)-absd(back) >= time.Millisecond {
			c.Fatalf("PrettyDuration(%d ns) = %q, which is %d ns (%v)", d, got, back, err)
		}
	})
}

func absd(d time.Duration) time.Duration {
	if d < 0 {
		return -d
	}
	return d
}

func TestPrettyAge(t *testing.T) {
	units := []struct {
		s   int64
		sym string
	}{{360 * 86400, "y"}, {30 * 86400, "mo"}, {7 * 86400, "w"}, {86400, "d"}, {3600, "h"}, {60, "m"}, {1, "s"}}
	vh.Run(t, vh.Opt{N: 15000, Rule: "ages in fake time as sums of units with carries at the boundaries, below a second, negative; non-trivial: two units or more"}, func(c *vh.C) {
		var sec int64
		for _, u := range units {
			if rapid.IntRange(0, 2).Draw(c.T, u.sym) == 0 {
				sec += u.s * int64(rapid.IntRange(1, 13).Draw(c.T, "n"))
			}
		}
		ns := rapid.SampledFrom([]int64{0, 0, 1, -1, 999999999, 500000000}).Draw(c.T, "ns")
		if rapid.IntRange(0, 8).Draw(c.T, "huge") == 0 {
			sec += units[0].s * rapid.Int64Range(0, 250).Draw(c.T, "years")
		}
		age := time.Duration(sec)*time.Second + time.Duration(ns)
		if rapid.IntRange(0, 9).Draw(c.T, "neg") == 0 {
			age = -age
		}
		rest := int64(age / time.Second)
		want, k := "", 0
		if age < time.Second {
			want = "0"
		} else {
			for _, u := range units {
				if q := rest / u.s; q > 0 {
					if k < 3 {
						want += strconv.FormatInt(q, 10) + u.sym
					}
					k++
					rest %= u.s
				}
			}
		}
		c.Note(k >= 2, "%d", int64(age))
		c.Class("%d units", k)
		var got, viaFmt string
		synctest.Test(t, func(t *testing.T) {
			at := time.Now().Add(-age)
			got, viaFmt = common.PrettyAge(at).String(), fmt.Sprint(common.PrettyAge(at.UTC()))
		})
		if got != want || viaFmt != want {
			c.Fatalf("age of %v: %q and %q, want %q", age, got, viaFmt, want)
		}
	})
}

type target struct {
	A int
	B string
	C map[string]any
	D []float64
}

// tokens draws a JSON object for target as a list of tokens.
func tokens(t *rapid.T) []string {
	str := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	var out []string
	n := 0
	member := func(k string, v ...string) {
		if rapid.IntRange(0, 4).Draw(t, "skip"+k) == 0 {
			return
		}
		if n > 0 {
			out = append(out, ",")
		}
		n++
		out = append(out, str(k), ":")
		out = append(out, v...)
	}
	out = append(out, "{")
	member("A", strconv.Itoa(int(rapid.Int32().Draw(t, "a"))))
	member("B", str(vh.Str(t, 20, "b")))
	c := []string{"{"}
	for i := rapid.IntRange(0, 3).Draw(t, "cn"); i > 0; i-- {
		if len(c) > 1 {
			c = append(c, ",")
		}
		c = append(c, str(fmt.Sprint("k", i, vh.Str(t, 6, "ck"))), ":", rapid.SampledFrom([]string{"true", "false", "null", "12.5", "\"x\"", "\"\\n\"", "{}"}).Draw(t, "cv"))
	}
	member("C", append(c, "}")...)
	d := []string{"["}
	for i := rapid.IntRange(0, 4).Draw(t, "dn"); i > 0; i-- {
		if len(d) > 1 {
			d = append(d, ",")
		}
		d = append(d, strconv.Itoa(i)+".5")
	}
	member("D", append(d, "]")...)
	return append(out, "}")
}

func TestLoadJSON(t *testing.T) {
	dir := t.TempDir()
	vh.Run(t, vh.Opt{N: 12000, Rule: "JSON files token by token with newlines between tokens: valid, with an offending byte at a known place, truncated, of the wrong type, absent; non-trivial: more than one line"}, func(c *vh.C) {
		toks := tokens(c.T)
		mode := rapid.SampledFrom([]string{"valid", "bad", "bad", "bad", "cut", "type", "absent", "dir"}).Draw(c.T, "mode")
		badAt := -1
		if mode == "bad" || mode == "cut" {
			badAt = rapid.IntRange(0, len(toks)).Draw(c.T, "at")
			if mode == "cut" && badAt == len(toks) {
				badAt--
			}
		}
		var sb strings.Builder
		space := func() {
			for i := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 4}).Draw(c.T, "ws"); i > 0; i-- {
				sb.WriteString(rapid.SampledFrom([]string{" ", "\n", "\r\n", "\t", "\n\n"}).Draw(c.T, "w"))
			}
		}
		lo, hi := 0, 0 // lines on which the error may be reported
		for i, tok := range toks {
			space()
			if i == badAt {
				break
			}
			sb.WriteString(tok)
		}
		if badAt == len(toks) {
			space()
		}
		switch mode {
		case "bad":
			pre := sb.String()
			lo = 1 + strings.Count(pre, "\n")
			hi = lo
			junk := rapid.SampledFrom([]string{"@", "\x00", "é", "\x7f", "\xff", "'"}).Draw(c.T, "junk")
			sb.WriteString(junk)
			for i := badAt; i < len(toks); i++ {
				space()
				sb.WriteString(toks[i])
			}
			space()
		case "cut": // the error is at the end: the last line with content up to the end
			hi = 1 + strings.Count(sb.String(), "\n")
			lo = 1 + strings.Count(strings.TrimRight(sb.String(), " \t\r\n"), "\n")
		case "valid", "type", "absent":
			space()
		}
		content := sb.String()
		name := rapid.SampledFrom([]string{"a.json", "ü.json", "with space", "100%d.json", "x:7"}).Draw(c.T, "file")
		file := filepath.Join(dir, name)
		os.RemoveAll(file)
		switch mode {
		case "type":
			content = rapid.SampledFrom([]string{`{"A":"x"}`, "{\n\"A\":1.5}", "[1]", `"s"`, `{"D":{}}`, `{"B":1}`, `{"C":[]}`}).Draw(c.T, "wrong")
		case "absent":
		case "dir":
			os.Mkdir(file, 0755)
		}
		if mode != "absent" && mode != "dir" {
			if err := os.WriteFile(file, []byte(content), 0644); err != nil {
				c.Skip(err)
			}
		}
		c.Note(strings.Contains(content, "\n"), "%s %q", mode, content)
		c.Class("%s", mode)
		var v target
		err := common.LoadJSON(file, &v)
		if mode == "valid" {
			var w target
			if e := json.Unmarshal([]byte(content), &w); e != nil {
				c.Fatalf("harness: %v %q", e, content)
			}
			if err != nil || !reflect.DeepEqual(v, w) {
				c.Fatalf("loaded %+v, error %v, want %+v from %q", v, err, w, content)
			}
			return
		}
		if err == nil {
			c.Fatalf("no error for %s %q", mode, content)
		}
		if !strings.Contains(err.Error(), file) {
			c.Fatalf("error %q does not name %q", err, file)
		}
		if lo > 0 {
			ok := false
			for l := lo; l <= hi; l++ {
				ok = ok || strings.Contains(err.Error(), fmt.Sprintf("%s:%d:", file, l))
			}
			if !ok {
				c.Fatalf("error %q does not give line %d-%d of %q", err, lo, hi, content)
			}
		}
	})
}

func TestPaths(t *testing.T) {
	root := t.TempDir()
	comp := rapid.SampledFrom([]string{"a", "b.txt", "..", ".", "", "c d", "…", "a", "keystore"})
	vh.Run(t, vh.Opt{N: 8000, Rule: "relative and absolute names with dots, doubled and trailing separators joined to data directories, and existence of generated files, directories and missing paths; non-trivial: relative"}, func(c *vh.C) {
		rel := strings.Join(rapid.SliceOfN(comp, 0, 5).Draw(c.T, "rel"), "/")
		base := strings.Join(rapid.SliceOfN(comp, 0, 4).Draw(c.T, "base"), "/")
		if rapid.Bool().Draw(c.T, "absbase") {
			base = "/" + base
		}
		if rapid.IntRange(0, 3).Draw(c.T, "abs") == 0 {
			rel = "/" + rel
		}
		want := rel
		if !strings.HasPrefix(rel, "/") {
			want = clean(base, rel)
		}
		c.Note(want != rel, "%q %q", base, rel)
		if got := common.AbsolutePath(base, rel); got != want {
			c.Fatalf("AbsolutePath(%q, %q) = %q, want %q", base, rel, got, want)
		}
		// existence
		p := filepath.Join(root, rapid.SampledFrom([]string{"x", "y", "ä ö"}).Draw(c.T, "p"))
		os.RemoveAll(p)
		kind := rapid.SampledFrom([]string{"file", "dir", "none", "link", "indir", "nodir", "noperm", "loop"}).Draw(c.T, "kind")
		exists := true
		switch kind {
		case "file":
			os.WriteFile(p, nil, 0)
		case "dir":
			os.Mkdir(p, 0755)
		case "link":
			os.Symlink(root, p)
		case "indir":
			os.Mkdir(p, 0755)
			p = filepath.Join(p, "f")
			os.WriteFile(p, []byte("x"), 0600)
		case "nodir":
			p, exists = filepath.Join(p, "f"), false
		case "loop": // there, although it cannot be examined
			os.Symlink(p, p)
		case "noperm":
			os.Mkdir(p, 0)
		default:
			exists = false
		}
		if got := common.FileExist(p); got != exists {
			c.Fatalf("FileExist = %v for %s", got, kind)
		}
		a, b := vh.Str(c.T, 10, "name"), vh.Str(c.T, 10, "version")
		if got, w := common.MakeName(a, b), a+"/v"+b+"/"+runtime.GOOS+"/"+runtime.Version(); got != w {
			c.Fatalf("MakeName(%q, %q) = %q, want %q", a, b, got, w)
		}
	})
}

// clean joins and normalises without path/filepath.
func clean(base, rel string) string {
	if base == "" && rel == "" {
		return ""
	}
	abs := strings.HasPrefix(base, "/")
	var out []string
	for _, p := range strings.Split(base+"/"+rel, "/") {
		switch p {
		case "", ".":
		case "..":
			if n := len(out); n > 0 && out[n-1] != ".." {
				out = out[:n-1]
			} else if !abs {
				out = append(out, "..")
			}
		default:
			out = append(out, p)
		}
	}
	s := strings.Join(out, "/")
	if base == "" { // a leading separator comes only from the base
		abs = false
	}
	if abs {
		return "/" + s
	}
	if s == "" {
		return "."
	}
	return s
}
