// Package c09 checks property C09: the alarm.
package c09

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"flychain/common/mclock"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

// A history is replayed on the alarm over a simulated clock. The model keeps
// the earliest deadline scheduled since the last time the alarm fired or was
// stopped, and whether an unread notification must or may be in the channel.
func TestAlarm(t *testing.T) {
	vh.Run(t, vh.Opt{N: 40000, Rule: "histories of up to 30 schedule/run/stop/receive operations, deadlines in the past, equal, earlier and later than the pending one; non-trivial: at least one reschedule while a deadline is pending and one firing"}, func(c *vh.C) {
		s := new(mclock.Simulated)
		s.Run(time.Duration(rapid.IntRange(0, 50).Draw(c.T, "start")))
		a := mclock.NewAlarm(s)
		var ops []string
		fail := func(format string, args ...any) {
			c.Fatalf("%s\nafter: %s", fmt.Sprintf(format, args...), strings.Join(ops, "; "))
		}
		const none = mclock.AbsTime(1 << 62)
		var (
			earliest = none                      // must have been notified once now >= earliest
			must     = false                     // the channel must hold a notification
			may      = map[mclock.AbsTime]bool{} // every deadline since the last Stop: a superseded one may notify, too
			mayNow   = false
			resched  = 0
			fired    = 0
		)
		settle := func() {
			now := s.Now()
			if earliest <= now {
				must, earliest = true, none
				fired++
			}
			for d := range may {
				if d <= now {
					mayNow = true
					delete(may, d)
					if len(a.C()) > 0 {
						earliest = none // it fired early, which also covers what is pending
					}
				}
			}
		}
		look := func() {
			select {
			case <-a.C():
				if !must && !mayNow {
					fail("a notification arrived at %d with nothing due", s.Now())
				}
			default:
				if must {
					fail("no notification in the channel at %d although the earliest deadline passed", s.Now())
				}
			}
			select {
			case <-a.C():
				fail("the channel held two notifications")
			default:
			}
			must, mayNow = false, false
		}
		n := rapid.IntRange(1, 30).Draw(c.T, "n")
		for i := 0; i < n; i++ {
			switch rapid.SampledFrom([]string{"sched", "sched", "sched", "run", "run", "stop", "recv"}).Draw(c.T, "op") {
			case "sched":
				now := s.Now()
				d := now.Add(time.Duration(rapid.OneOf(rapid.IntRange(-8, 20), rapid.IntRange(1, 5), rapid.Just(0)).Draw(c.T, "d")))
				if rapid.IntRange(0, 3).Draw(c.T, "rel") == 0 && earliest != none {
					d = earliest.Add(time.Duration(rapid.IntRange(-2, 2).Draw(c.T, "rd")))
				}
				ops = append(ops, fmt.Sprintf("Schedule(%d)@%d", d, now))
				if earliest != none {
					resched++
				}
				eff := d
				if eff < now {
					eff = now
				}
				if eff < earliest {
					earliest = eff
				}
				may[eff] = true
				a.Schedule(d)
			case "run":
				d := time.Duration(rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 25)).Draw(c.T, "d"))
				if earliest != none && earliest >= s.Now() && rapid.IntRange(0, 2).Draw(c.T, "edge") == 0 {
					d = earliest.Sub(s.Now()) + time.Duration(rapid.IntRange(-1, 1).Draw(c.T, "e"))
					if d < 0 {
						d = 0
					}
				}
				ops = append(ops, fmt.Sprintf("Run(%d)", d))
				s.Run(d)
				settle()
			case "stop":
				ops = append(ops, fmt.Sprintf("Stop@%d", s.Now()))
				a.Stop()
				earliest, must, mayNow = none, false, false
				may = map[mclock.AbsTime]bool{}
				look()
			case "recv":
				ops = append(ops, "recv")
				// a deadline equal to now fires when the clock next runs
				if earliest != none && earliest <= s.Now() {
					s.Run(0)
					settle()
				}
				look()
			}
		}
		s.Run(0)
		settle()
		look()
		if earliest != none {
			s.Run(earliest.Sub(s.Now()))
			settle()
			look()
		}
		s.Run(1000)
		settle()
		look()
		c.Note(resched > 0 && fired > 0, "%s", strings.Join(ops, "; "))
	})
}

func TestNilClock(t *testing.T) {
	vh.Run(t, vh.Opt{N: 10, Rule: "an alarm without a clock is refused; non-trivial: all"}, func(c *vh.C) {
		c.Note(true, "nil")
		if vh.Caught(func() { mclock.NewAlarm(nil) }) == nil {
			c.Fatalf("NewAlarm(nil) did not panic")
		}
	})
}
