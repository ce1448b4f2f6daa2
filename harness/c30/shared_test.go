package c30

import (
	"fmt"
	"os"
	"path/filepath"
	"sync/atomic"
	"testing"
	"time"

	"flychain/common"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

func TestShared(t *testing.T) {
	dir := t.TempDir()
	var seq atomic.Int64
	vh.Run(t, vh.Opt{N: 1000, Rule: vh.SharedRule}, func(c *vh.C) {
		base := time.Now()
		vh.Shared(c, vh.Ops(c, 10, func(c *vh.C) vh.Op {
			d := drawDur(c.T)
			return vh.Cat(c,
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("duration %d", d), F: func() []any { return vh.R(common.PrettyDuration(d).String()) }}
				},
				func() vh.Op {
					// three large units, so that the time this case takes does not show
					days := 360*rapid.IntRange(1, 9).Draw(c.T, "years") + 30*rapid.IntRange(1, 11).Draw(c.T, "months") + 7*rapid.IntRange(1, 4).Draw(c.T, "weeks")
					at := base.Add(-time.Duration(days)*24*time.Hour - 12*time.Hour)
					return vh.Op{Name: fmt.Sprintf("age of %d days and a half", days), F: func() []any {
						return vh.R(common.PrettyAge(at).String())
					}}
				},
				func() vh.Op {
					v := float64(vh.U64(c.T, "u"))
					return vh.Op{Name: fmt.Sprintf("size %v", v), F: func() []any {
						return vh.R(common.StorageSize(v).String(), common.StorageSize(v).TerminalString())
					}}
				},
				func() vh.Op {
					a, b := vh.Str(c.T, 10, "a"), vh.Str(c.T, 10, "b")
					return vh.Op{Name: fmt.Sprintf("names %q %q", a, b), F: func() []any {
						return vh.R(common.MakeName(a, b), common.AbsolutePath(a, b), common.FileExist(dir), common.FileExist(filepath.Join(dir, "none")))
					}}
				},
				func() vh.Op {
					f := filepath.Join(dir, fmt.Sprint("f", seq.Add(1)%64))
					text := rapid.SampledFrom([]string{`{"a":1}`, "{\n\"a\":\n}", "[1,\n\n2]", "{\"a\":\"x\"\n\n\n!", ""}).Draw(c.T, "text")
					f += fmt.Sprintf("-%x", text)
					if os.WriteFile(f, []byte(text), 0600) != nil {
						panic("cannot write " + f)
					}
					return vh.Op{Name: fmt.Sprintf("load %q", text), F: func() []any {
						var v any
						err := common.LoadJSON(f, &v)
						return vh.R(fmt.Sprint(v), err)
					}}
				},
			)
		}))
	})
}
