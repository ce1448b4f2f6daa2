// Package c22 checks property C22: JSON log formats.
package c22

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"testing"
	"time"

	"flychain/log"
	"flychain/rlp/zzverif/lg"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

// clean is what JSON makes of invalid UTF-8.
func clean(s string) string { return string([]rune(s)) }

func frame(out []byte, pretty, lines bool) ([]byte, error) {
	if lines {
		if !bytes.HasSuffix(out, []byte("\n")) {
			return nil, fmt.Errorf("no final newline: %q", out)
		}
		out = out[:len(out)-1]
	}
	if bytes.HasSuffix(out, []byte("\n")) {
		return nil, fmt.Errorf("extra final newline: %q", out)
	}
	if !pretty && bytes.ContainsAny(out, "\n\r") {
		return nil, fmt.Errorf("raw newline: %q", out)
	}
	return out, nil
}

func parse(out []byte) (map[string]any, error) {
	d := json.NewDecoder(bytes.NewReader(out))
	d.UseNumber()
	var m map[string]any
	if err := d.Decode(&m); err != nil {
		return nil, fmt.Errorf("%v in %q", err, out)
	}
	if d.More() {
		return nil, fmt.Errorf("more than one document: %q", out)
	}
	if m == nil {
		return nil, fmt.Errorf("not an object: %q", out)
	}
	return m, nil
}

func head(r *lg.Rec, m map[string]any) error {
	n := r.R.KeyNames
	s, _ := m[n.Time].(string)
	tm, err := time.Parse(time.RFC3339Nano, s)
	if err != nil || !tm.Equal(r.R.Time) {
		return fmt.Errorf("time %v for %v", m[n.Time], r.R.Time)
	}
	if m[n.Lvl] != r.R.Lvl.String() {
		return fmt.Errorf("level %v for %v", m[n.Lvl], r.R.Lvl)
	}
	if m[n.Msg] != clean(r.R.Msg) {
		return fmt.Errorf("message %q for %q", m[n.Msg], r.R.Msg)
	}
	return nil
}

func member(v lg.Val, got any) error {
	if v.Num {
		n, ok := got.(json.Number)
		if !ok {
			return fmt.Errorf("%s %v is written as %T %v", v.Kind, v.V, got, got)
		}
		if strings.HasPrefix(v.Kind, "float") {
			bits := 64
			if v.Kind == "float32" {
				bits = 32
			}
			a, err1 := strconv.ParseFloat(string(n), bits)
			b, err2 := strconv.ParseFloat(v.JSON, bits)
			if err1 != nil || err2 != nil || a != b {
				return fmt.Errorf("%s %v is written %s", v.Kind, v.V, n)
			}
			return nil
		}
		if string(n) != v.JSON {
			return fmt.Errorf("%s %v is written %s", v.Kind, v.V, n)
		}
		return nil
	}
	if got != clean(v.JSON) {
		return fmt.Errorf("%s %q is written %#v", v.Kind, v.JSON, got)
	}
	return nil
}

func plain(r *lg.Rec, out []byte) error {
	m, err := parse(out)
	if err != nil {
		return err
	}
	if msg, ok := m[lg.ErrorKey].(string); ok && len(m) == 1 && msg != "" {
		for _, p := range r.Pairs {
			if p.Val.NoJS {
				return nil
			}
		}
		return fmt.Errorf("error object for a representable record: %q", out)
	}
	if err := head(r, m); err != nil {
		return err
	}
	cand := map[string][]lg.Pair{}
	for _, p := range r.Pairs {
		cand[clean(p.Key)] = append(cand[clean(p.Key)], p)
	}
	size := 3 + len(cand)
	bad := false
	for k, ps := range cand {
		got, ok := m[k]
		if !ok {
			return fmt.Errorf("no member %q in %q", k, out)
		}
		var first error
		for _, p := range ps {
			err := member(p.Val, got)
			if err == nil {
				first = nil
				break
			}
			if first == nil {
				first = err
			}
		}
		if first != nil {
			return fmt.Errorf("member %q: %v", k, first)
		}
	}
	if bad = hasBad(r); bad {
		size++
		if err := namesBadKey(r, m); err != nil {
			return err
		}
	}
	if len(m) != size {
		return fmt.Errorf("%d members, want %d: %q", len(m), size, out)
	}
	return nil
}

func hasBad(r *lg.Rec) bool {
	for _, p := range r.Pairs {
		if p.Bad {
			return true
		}
	}
	return false
}

func namesBadKey(r *lg.Rec, m map[string]any) error {
	e, _ := m[lg.ErrorKey].(string)
	for _, p := range r.Pairs {
		if p.Bad && strings.Contains(e, clean(fmt.Sprintf("%+v", p.RawKey))) {
			return nil
		}
	}
	return fmt.Errorf("the non-string key is not named: %q", e)
}

func ordered(r *lg.Rec, out []byte) error {
	m, err := parse(out)
	if err != nil {
		return err
	}
	if err := head(r, m); err != nil {
		return err
	}
	ctx, ok := m[r.R.KeyNames.Ctx].([]any)
	if !ok || len(ctx) != 2*len(r.Pairs) {
		return fmt.Errorf("context list %v for %d pairs", m[r.R.KeyNames.Ctx], len(r.Pairs))
	}
	for i, p := range r.Pairs {
		if ctx[2*i] != clean(p.Key) {
			return fmt.Errorf("key %d is %q, want %q", i, ctx[2*i], p.Key)
		}
		s, ok := ctx[2*i+1].(string)
		if !ok {
			return fmt.Errorf("value %d is %T", i, ctx[2*i+1])
		}
		v, err := lg.Unescape(s)
		if err != nil || v != p.Val.Term {
			return fmt.Errorf("value %d (%s) is %q, want %q (%v)", i, p.Val.Kind, v, p.Val.Term, err)
		}
	}
	size := 4
	if hasBad(r) {
		size++
		if err := namesBadKey(r, m); err != nil {
			return err
		}
	}
	if len(m) != size {
		return fmt.Errorf("%d members, want %d: %q", len(m), size, out)
	}
	return nil
}

func reserved(r *lg.Rec) bool {
	n := r.R.KeyNames
	for _, p := range r.Pairs {
		switch clean(p.Key) {
		case n.Time, n.Lvl, n.Msg, lg.ErrorKey:
			return true
		}
	}
	return false
}

func TestJSON(t *testing.T) {
	vh.Run(t, vh.Opt{N: 12000, Rule: "records with 0-6 pairs of every value kind through the plain JSON format in all four configurations (and the default one); cases whose keys collide with the record's own key names are skipped; non-trivial: at least one pair"}, func(c *vh.C) {
		r := lg.Record(c.T, 6)
		pretty, lines := rapid.Bool().Draw(c.T, "pretty"), rapid.Bool().Draw(c.T, "lines")
		c.Note(len(r.Pairs) > 0, "%s pretty=%v lines=%v", r.Describe(), pretty, lines)
		if reserved(r) {
			c.Class("key collides with a record key (skipped)")
			return
		}
		f := log.JSONFormatEx(pretty, lines)
		if !pretty && lines && rapid.Bool().Draw(c.T, "default") {
			f = log.JSONFormat()
		}
		nojs := false
		for _, p := range r.Pairs {
			c.Class("value %s", p.Val.Kind)
			nojs = nojs || p.Val.NoJS
		}
		if nojs {
			c.Class("not representable")
		}
		out := f.Format(r.R)
		doc, err := frame(out, pretty, lines)
		if err == nil {
			err = plain(r, doc)
		}
		if err != nil {
			c.Fatalf("%v", err)
		}
	})
}

func TestOrdered(t *testing.T) {
	vh.Run(t, vh.Opt{N: 12000, Rule: "the same records through the ordered JSON format in all four configurations; non-trivial: at least one pair"}, func(c *vh.C) {
		r := lg.Record(c.T, 6)
		pretty, lines := rapid.Bool().Draw(c.T, "pretty"), rapid.Bool().Draw(c.T, "lines")
		c.Note(len(r.Pairs) > 0, "%s pretty=%v lines=%v", r.Describe(), pretty, lines)
		out := log.JSONFormatOrderedEx(pretty, lines).Format(r.R)
		doc, err := frame(out, pretty, lines)
		if err == nil {
			err = ordered(r, doc)
		}
		if err != nil {
			c.Fatalf("%v", err)
		}
	})
}
