package vh

import (
	"fmt"
	"math/big"
	"regexp"
	"sync"

	"pgregory.net/rapid"
)

// Op is one call of the code under test on fixed inputs.
type Op struct {
	Name string
	F    func() []any
}

// Loose is text whose runs of spaces may differ between calls.
type Loose []byte

// R lists the results of a call.
func R(v ...any) []any { return v }

var spaces = regexp.MustCompile(" +")

func render(vs []any) string {
	s := ""
	for _, v := range vs {
		switch v := v.(type) {
		case []byte:
			s += fmt.Sprintf("%q ", v)
		case Loose:
			s += fmt.Sprintf("%q ", spaces.ReplaceAllLiteral(v, []byte(" ")))
		case string:
			s += fmt.Sprintf("%q ", v)
		case []string:
			s += fmt.Sprintf("%q ", v)
		case *big.Int:
			if v == nil {
				s += "nil "
			} else {
				s += v.Text(16) + " "
			}
		case error:
			s += "error " + v.Error() + " "
		default:
			s += fmt.Sprintf("%v ", v)
		}
	}
	return s
}

func call(o Op) (vs []any) {
	defer func() {
		if p := recover(); p != nil {
			vs = R(fmt.Sprintf("panic: %v", p))
		}
	}()
	return o.F()
}

// scribble overwrites the results, which belong to the caller.
func scribble(vs []any) {
	for _, v := range vs {
		switch v := v.(type) {
		case []byte:
			for i := range v {
				v[i] ^= 0x5a
			}
		case Loose:
			for i := range v {
				v[i] ^= 0x5a
			}
		case []string:
			for i := range v {
				v[i] += "?"
			}
		case *big.Int:
			if v != nil {
				for i, b := range v.Bits() {
					v.Bits()[i] = b ^ 0x5a5a
				}
				v.Add(v, big.NewInt(77))
			}
		}
	}
}

// Shared runs the calls one after another, again after their results were
// overwritten, and then from several goroutines at once. Results must not
// change once they were returned, whatever is called later, and every call must
// give the same result each time; under the race detector unsynchronised shared
// state is found as such. Every F makes its own copies of mutable arguments.
func Shared(c *C, ops []Op) {
	vals, early := make([][]any, len(ops)), make([]string, len(ops))
	for i, o := range ops {
		vals[i] = call(o)
		early[i] = render(vals[i])
	}
	for i, o := range ops {
		if late := render(vals[i]); late != early[i] {
			c.Fatalf("%s gave %s, which later calls changed to %s", o.Name, early[i], late)
		}
	}
	for _, v := range vals {
		scribble(v)
	}
	for i, o := range ops {
		if again := render(call(o)); again != early[i] {
			c.Fatalf("%s gave %s at first and gives %s after the results were overwritten by their owner", o.Name, early[i], again)
		}
	}
	const workers = 4
	start := make(chan struct{})
	var mu sync.Mutex
	var wg sync.WaitGroup
	bad := ""
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			got := make([][]any, len(ops))
			for j := range ops {
				i := (j + w*len(ops)/workers) % len(ops)
				got[i] = call(ops[i])
			}
			for i := range ops {
				if s := render(got[i]); s != early[i] {
					mu.Lock()
					bad = fmt.Sprintf("%s gives %s alone and %s when called concurrently", ops[i].Name, early[i], s)
					mu.Unlock()
					return
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	if bad != "" {
		c.Fatalf("%s", bad)
	}
}

// Ops draws n calls.
func Ops(c *C, n int, draw func(c *C) Op) []Op {
	ops := make([]Op, rapid.IntRange(2, n).Draw(c.T, "calls"))
	for i := range ops {
		ops[i] = draw(c)
	}
	c.Note(true, "%d calls, first %s", len(ops), ops[0].Name)
	return ops
}

// Cat draws one of the alternatives.
func Cat(c *C, alts ...func() Op) Op {
	return alts[rapid.IntRange(0, len(alts)-1).Draw(c.T, "op")]()
}

// SharedRule describes cases made by Ops and run by Shared.
const SharedRule = "2..12 calls with small inputs, repeated after their results were overwritten and from four goroutines under the race detector; non-trivial: all"
