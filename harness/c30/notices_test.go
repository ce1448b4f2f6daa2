package c30

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"testing"

	"flychain/common"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

// captured is what f writes to the file *std (os.Stdout or os.Stderr).
func captured(c *vh.C, std **os.File, f func()) string {
	tmp, err := os.CreateTemp("", "c30")
	if err != nil {
		c.Fatalf("VH-INCONCLUSIVE %v", err)
	}
	defer os.Remove(tmp.Name())
	defer tmp.Close()
	real := *std
	*std = tmp
	func() {
		defer func() { *std = real }()
		f()
	}()
	b, err := os.ReadFile(tmp.Name())
	if err != nil {
		c.Fatalf("VH-INCONCLUSIVE %v", err)
	}
	return string(b)
}

func TestNotices(t *testing.T) {
	vh.Run(t, vh.Opt{N: 1500, Rule: "deprecation notices of any one-line ASCII text and bug reports with any arguments, as written to standard output and error; non-trivial: a text or arguments that are not empty"}, func(c *vh.C) {
		text := rapid.StringMatching(`[ -~]{0,60}|#{1,9}|%[sdv%]*|.{100,130}`).Filter(func(s string) bool { return strings.IndexFunc(s, func(r rune) bool { return r < ' ' || r > '~' }) < 0 }).Draw(c.T, "text")
		var args []interface{}
		for n := rapid.IntRange(0, 3).Draw(c.T, "args"); n > 0; n-- {
			args = append(args, rapid.SampledFrom([]interface{}{1, -7, "a", "%d", nil, true, 2.5, []int{1, 2}, fmt.Errorf("e")}).Draw(c.T, "arg"))
		}
		c.Note(text != "" || len(args) > 0, "%q %v", text, args)
		if e := captured(c, &os.Stderr, func() {
			if out := captured(c, &os.Stdout, func() { common.PrintDeprecationWarning(text) }); true {
				// a box: a border, an empty row, the text, an empty row, a border
				lines := strings.Split(strings.Trim(out, "\n"), "\n")
				edge, space := strings.Repeat("#", len(text)+4), "# "+strings.Repeat(" ", len(text))+" #"
				if want := []string{edge, space, "# " + text + " #", space, edge}; strings.Join(lines, "\n") != strings.Join(want, "\n") {
					c.Fatalf("notice %q:\n%s", text, out)
				}
				if !strings.HasSuffix(out, "\n") {
					c.Fatalf("notice %q does not end its line", text)
				}
			}
		}); e != "" {
			c.Fatalf("a notice writes %q to standard error", e)
		}
		line := 0
		if o := captured(c, &os.Stdout, func() {
			out := captured(c, &os.Stderr, func() {
				_, _, line, _ = runtime.Caller(0)
				common.Report(args...)
			})
			if want := fmt.Sprintln(args...); !strings.Contains("\n"+out, "\n"+want) {
				c.Fatalf("report of %q lacks them:\n%s", want, out)
			}
			if want := fmt.Sprintf("notices_test.go:%d\n", line+1); !strings.Contains(out, want) {
				c.Fatalf("report lacks its call site %q:\n%s", want, out)
			}
			if lines := strings.Split(strings.TrimRight(out, "\n"), "\n"); !strings.Contains(lines[0], "bug") || !strings.Contains(lines[len(lines)-1], "BUG! PLEASE REPORT") {
				c.Fatalf("report does not ask to be sent:\n%s", out)
			}
			if !strings.Contains(out, "goroutine ") || !strings.Contains(out, "TestNotices") {
				c.Fatalf("report lacks the stack:\n%s", out)
			}
		}); o != "" {
			c.Fatalf("a report writes %q to standard output", o)
		}
	})
}
