// Package c20 checks property C20: log lines parse back to their record.
package c20

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"flychain/log"
	"flychain/rlp/zzverif/lg"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

func want(r *lg.Rec, term bool) (out []lg.KV) {
	for _, p := range r.Pairs {
		kv := lg.KV{K: p.Key, V: p.Val.Log}
		if term {
			kv.V = p.Val.Term
		}
		if p.Bad {
			kv.K = lg.ErrorKey
		}
		out = append(out, kv)
	}
	return
}

func compare(r *lg.Rec, got []lg.KV, term bool) error {
	w := want(r, term)
	if len(got) != len(w) {
		return fmt.Errorf("%d pairs, want %d: %q", len(got), len(w), got)
	}
	for i := range w {
		if got[i].K != w[i].K {
			return fmt.Errorf("key %d is %q, want %q", i, got[i].K, w[i].K)
		}
		if !r.Pairs[i].Bad && got[i].V != w[i].V {
			return fmt.Errorf("value %d (%s) is %q, want %q", i, r.Pairs[i].Val.Kind, got[i].V, w[i].V)
		}
	}
	return nil
}

func nontrivial(r *lg.Rec) bool {
	s := r.R.Msg
	for _, p := range r.Pairs {
		s += p.Key + p.Val.Log
	}
	return strings.ContainsAny(s, " =\"\n\r\t\\\x1b\x00") || len(s) != len([]rune(s))
}

func snapshot(r *log.Record) []any { return append([]any{}, r.Ctx...) }

func checkLogfmt(r *lg.Rec, out string) error {
	if !strings.HasSuffix(out, "\n") || strings.Count(out, "\n") != 1 {
		return fmt.Errorf("not exactly one line: %q", out)
	}
	line := strings.TrimSuffix(out, "\n")
	if !lg.Printable(line) {
		return fmt.Errorf("raw control bytes or invalid UTF-8: %q", line)
	}
	kv, err := lg.ParsePairs(line)
	if err != nil {
		return fmt.Errorf("%v in %q", err, line)
	}
	if len(kv) < 3 {
		return fmt.Errorf("too few fields: %q", line)
	}
	n := r.R.KeyNames
	head := []lg.KV{{K: n.Time, V: ""}, {K: n.Lvl, V: r.R.Lvl.String()}, {K: n.Msg, V: r.R.Msg}}
	for i, h := range head {
		if kv[i].K != h.K || i > 0 && kv[i].V != h.V {
			return fmt.Errorf("field %d is %q, want %q", i, kv[i], h)
		}
	}
	tm, err := time.Parse(lg.TimeFormat, kv[0].V)
	if err != nil || tm.Unix() != floorSec(r.R.Time) {
		return fmt.Errorf("time field %q for %v (%v)", kv[0].V, r.R.Time, err)
	}
	if err := compare(r, kv[3:], false); err != nil {
		return fmt.Errorf("%v in %q", err, line)
	}
	return nil
}

func floorSec(t time.Time) int64 { return t.Unix() }

var (
	sgr     = regexp.MustCompile("\x1b\\[[0-9;]*m")
	lvlText = []string{"CRIT ", "ERROR", "WARN ", "INFO ", "DEBUG", "TRACE"}
)

func checkTerminal(r *lg.Rec, out string, origins bool) error {
	if !strings.HasSuffix(out, "\n") {
		return fmt.Errorf("no final newline: %q", out)
	}
	line := strings.TrimSuffix(out, "\n")
	head := lvlText[r.R.Lvl] + "["
	if !strings.HasPrefix(line, head) {
		return fmt.Errorf("does not start with %q: %q", head, line)
	}
	rest := line[len(head):]
	const layout = "01-02|15:04:05.000"
	if len(rest) < len(layout) {
		return fmt.Errorf("no time: %q", line)
	}
	if ts := rest[:len(layout)]; ts != r.R.Time.Format(layout) {
		return fmt.Errorf("time %q, want %q", ts, r.R.Time.Format(layout))
	}
	rest = rest[len(layout):]
	if origins {
		loc := "|" + fmt.Sprintf("%+v", r.R.Call)
		if !strings.HasPrefix(rest, loc) {
			return fmt.Errorf("no location %q: %q", loc, line)
		}
		rest = rest[len(loc):]
	}
	if !strings.HasPrefix(rest, "]") {
		return fmt.Errorf("header not closed: %q", line)
	}
	rest = rest[1:]
	if !strings.HasPrefix(rest, " ") {
		return fmt.Errorf("no space after the header: %q", line)
	}
	err := body(r, rest[1:], line)
	if origins { // the location may be padded
		for k := 1; err != nil && k < len(rest) && rest[k] == ' '; k++ {
			if body(r, rest[k+1:], line) == nil {
				err = nil
			}
		}
	}
	return err
}

// body checks the message and the pairs.
func body(r *lg.Rec, rest, line string) error {
	rest, err := cutMsg(rest, r.R.Msg)
	if err != nil {
		return fmt.Errorf("%v in %q", err, line)
	}
	if !lg.Printable(rest) {
		return fmt.Errorf("raw control bytes or invalid UTF-8: %q", rest)
	}
	if rest != "" && rest[0] != ' ' {
		return fmt.Errorf("no space after the message: %q", rest)
	}
	kv, err := lg.ParsePairs(rest)
	if err != nil {
		return fmt.Errorf("%v in %q", err, line)
	}
	if err := compare(r, kv, true); err != nil {
		return fmt.Errorf("%v in %q", err, line)
	}
	return nil
}

// cutMsg removes the message, raw if it is harmless or quoted, from s.
func cutMsg(s, msg string) (string, error) {
	if strings.HasPrefix(s, `"`) {
		if q, err := strconv.QuotedPrefix(s); err == nil {
			if u, err := strconv.Unquote(q); err == nil && u == msg && lg.Printable(q) {
				return s[len(q):], nil
			}
		}
	}
	if !strings.HasPrefix(s, msg) {
		return "", fmt.Errorf("message %q not found at %q", msg, s)
	}
	for _, r := range msg {
		if r != '\n' && r != '\r' && (!strconv.IsPrint(r) || r == '=' || r == '\uFFFD') {
			return "", fmt.Errorf("message %q left unquoted", msg)
		}
	}
	return s[len(msg):], nil
}

func TestLogfmt(t *testing.T) {
	f := log.LogfmtFormat()
	vh.Run(t, vh.Opt{N: 15000, Rule: "records with 0-6 pairs of every value kind, arbitrary text in message, keys and values, any key names; non-trivial: some text needs care (spaces, quotes, '=', control or non-ASCII bytes)"}, func(c *vh.C) {
		r := lg.Record(c.T, 6)
		c.Note(nontrivial(r), "%s", r.Describe())
		for _, p := range r.Pairs {
			c.Class("value %s", p.Val.Kind)
		}
		before := snapshot(r.R)
		spare := append(make([]any, 0, len(r.R.Ctx)+8), r.R.Ctx...)
		r.R.Ctx = spare
		out := string(f.Format(r.R))
		if err := checkLogfmt(r, out); err != nil {
			c.Fatalf("%v", err)
		}
		if len(r.R.Ctx) != len(before) {
			c.Fatalf("record context changed")
		}
		// the padding left behind by this record changes white space only
		again := string(f.Format(r.R))
		if err := checkLogfmt(r, again); err != nil {
			c.Fatalf("second time: %v", err)
		}
	})
}

func TestTerminal(t *testing.T) {
	log.PrintOrigins(false)
	plain, color := log.TerminalFormat(false), log.TerminalFormat(true)
	vh.Run(t, vh.Opt{N: 15000, Rule: "the same records through the terminal format, with and without colours and call locations; non-trivial: as for logfmt"}, func(c *vh.C) {
		r := lg.Record(c.T, 5)
		origins := rapid.Bool().Draw(c.T, "origins")
		c.Note(nontrivial(r), "%s origins=%v", r.Describe(), origins)
		c.Class("origins %v", origins)
		log.PrintOrigins(origins)
		defer log.PrintOrigins(false)
		out := string(plain.Format(r.R))
		if strings.Contains(out, "\x1b") {
			c.Fatalf("escape byte in the uncoloured format: %q", out)
		}
		if err := checkTerminal(r, out, origins); err != nil {
			c.Fatalf("%v", err)
		}
		col := string(color.Format(r.R))
		codes := sgr.FindAllString(col, -1)
		if strings.Count(col, "\x1b") != len(codes) || len(codes)%2 != 0 {
			c.Fatalf("stray escape bytes in %q", col)
		}
		if want := map[log.Lvl]string{log.LvlCrit: "35", log.LvlError: "31", log.LvlWarn: "33", log.LvlInfo: "32", log.LvlDebug: "36", log.LvlTrace: "34"}[r.R.Lvl]; want != "" {
			for i := 0; i < len(codes); i += 2 {
				if codes[i] != "\x1b["+want+"m" {
					c.Fatalf("level %v has the colour %q, want %s: %q", r.R.Lvl, codes[i], want, col)
				}
			}
			if len(codes) == 0 {
				c.Fatalf("no colour in %q", col)
			}
		}
		for i := 1; i < len(codes); i += 2 {
			if codes[i] != "\x1b[0m" {
				c.Fatalf("colour not reset: %q", col)
			}
		}
		if err := checkTerminal(r, sgr.ReplaceAllString(col, ""), origins); err != nil {
			c.Fatalf("coloured: %v", err)
		}
	})
}
