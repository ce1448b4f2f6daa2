package c17

import (
	"fmt"
	"testing"

	"flychain/crypto"
	"flychain/rlp/zzverif/vh"

	"pgregory.net/rapid"
)

var getters = []func() *crypto.BitCurve{crypto.S160, crypto.S192, crypto.S224, crypto.S256}

// firstUse asks for the curves from several goroutines at once before anything
// else in the process did: the race detector sees the initialisation.
var firstUse = func() (got [8][4]*crypto.BitCurve) {
	start, done := make(chan struct{}), make(chan struct{})
	for w := range got {
		go func() {
			<-start
			for i := range getters {
				k := (i + w) % 4
				cv := getters[k]()
				got[w][k] = cv
				if cv != nil && cv.P != nil {
					cv.P.Sign()
				}
			}
			done <- struct{}{}
		}()
	}
	close(start)
	for range got {
		<-done
	}
	return
}()

func TestShared(t *testing.T) {
	vh.Run(t, vh.Opt{N: 250, Rule: vh.SharedRule + "; the curves are first asked for from eight goroutines at once"}, func(c *vh.C) {
		for w := range firstUse {
			for i, cv := range firstUse[w] {
				if cv == nil || cv != curves[i].c {
					c.Fatalf("%s: goroutine %d of the first users got another curve", curves[i].name, w)
				}
			}
		}
		vh.Shared(c, vh.Ops(c, 5, func(c *vh.C) vh.Op {
			k := curves[rapid.IntRange(0, 3).Draw(c.T, "curve")]
			p := k.point(c.T, "p")
			q := k.related(c.T, p, "q")
			return vh.Cat(c,
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("%s: %v + %v", k.name, p, q), F: func() []any {
						px, py := p.xy()
						qx, qy := q.xy()
						x, y := k.c.Add(px, py, qx, qy)
						return vh.R(x, y)
					}}
				},
				func() vh.Op {
					return vh.Op{Name: fmt.Sprintf("%s: 2*%v", k.name, p), F: func() []any {
						px, py := p.xy()
						x, y := k.c.Double(px, py)
						return vh.R(x, y, k.c.IsOnCurve(px, py))
					}}
				},
				func() vh.Op {
					s := k.bytes(c.T, k.scalar(c.T, "s"))
					return vh.Op{Name: fmt.Sprintf("%s: %x*%v", k.name, s, p), F: func() []any {
						px, py := p.xy()
						x, y := k.c.ScalarMult(px, py, append([]byte{}, s...))
						return vh.R(x, y)
					}}
				},
				func() vh.Op {
					s := k.bytes(c.T, k.scalar(c.T, "s"))
					return vh.Op{Name: fmt.Sprintf("%s: %x*G", k.name, s), F: func() []any {
						x, y := k.c.ScalarBaseMult(append([]byte{}, s...))
						return vh.R(x, y)
					}}
				},
			)
		}))
		for _, k := range curves {
			k.intact(c)
		}
	})
}
