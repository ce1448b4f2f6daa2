package vh

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"sync/atomic"
	"testing"
	"time"
	_ "unsafe" // for go:linkname

	"pgregory.net/rapid"
)

// fuzzing holds the input of the running fuzz case: the words rapid's
// generators draw from.
var fuzzing []byte

// quietT keeps the log of draws, of which every fuzz case makes many, empty.
type quietT struct{ *testing.T }

func (quietT) Logf(string, ...any) {}
func (quietT) Log(...any)          {}

//go:linkname rapidCheckFuzz pgregory.net/rapid.checkFuzz
func rapidCheckFuzz(tb rapid.TB, prop func(*rapid.T), input []byte)

// Fuzz drives the properties of a test with the mutated inputs of Go's
// coverage-guided fuzzer instead of with rapid's random words.
func Fuzz(f *testing.F, test func(*testing.T)) {
	rng := rand.New(rand.NewSource(int64(envInt("VERIF_SEED", 1))))
	for i := 0; i < 24; i++ {
		b := make([]byte, 8+8<<uint(i%8))
		binary.LittleEndian.PutUint64(b, rng.Uint64())
		f.Add(b)
	}
	f.Fuzz(func(t *testing.T, data []byte) {
		fuzzing = expand(data)
		test(t)
	})
}

// expand turns a fuzz input into the words of a case: the first word seeds a
// random sequence, the others change words of that sequence. So a mutation of
// the first makes a new random case, and one of the others a neighbour.
func expand(data []byte) []byte {
	var w [8]byte
	n := copy(w[:], data)
	data = data[n:]
	x := binary.LittleEndian.Uint64(w[:])
	out := make([]byte, len(data)&^7+8*3072)
	for i := 0; i < len(out); i += 8 {
		x += 0x9e3779b97f4a7c15
		z := x
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		binary.LittleEndian.PutUint64(out[i:], z^z>>31)
	}
	for i, b := range data {
		out[i] ^= b
	}
	return out
}

func fuzzOne(t *testing.T, prop func(c *C)) {
	r := &recorder{distinct: map[uint64]struct{}{}, classes: map[string]int64{}, next: 1, t: t}
	rapidCheckFuzz(quietT{t}, func(rt *rapid.T) {
		atomic.AddInt64(&r.evals, 1)
		prop(&C{T: rt, r: r})
	}, fuzzing)
	if p := os.Getenv("VH_FUZZED"); p != "" && len(r.distinct) > 0 {
		// one byte per non-trivial case, from every worker
		if f, err := os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644); err == nil {
			f.Write([]byte{'.'})
			f.Close()
		}
	}
}

type probeT struct {
	quietT
	failed bool
}

type probed struct{}

func (p *probeT) Fatalf(string, ...any) { p.failed = true; panic(probed{}) }
func (p *probeT) SkipNow()              { panic(probed{}) }

// minimise shrinks the words of a failing fuzz input and saves them as a
// fail file of rapid, which replays it.
func minimise(t *testing.T, prop func(c *C), from, to string) {
	data, err := os.ReadFile(from)
	if err != nil {
		t.Fatal(err)
	}
	r := &recorder{distinct: map[uint64]struct{}{}, classes: map[string]int64{}, next: 1, t: t}
	fails := func(words []uint64) bool {
		p := &probeT{quietT: quietT{t}}
		var b bytes.Buffer
		binary.Write(&b, binary.LittleEndian, words)
		func() {
			defer func() {
				if x := recover(); x != nil && x != (probed{}) {
					panic(x)
				}
			}()
			rapidCheckFuzz(p, func(rt *rapid.T) { prop(&C{T: rt, r: r}) }, b.Bytes())
		}()
		return p.failed
	}
	data = expand(data)
	words := make([]uint64, len(data)/8)
	for i := range words {
		words[i] = binary.LittleEndian.Uint64(data[8*i:])
	}
	save := func() {
		var b bytes.Buffer
		fmt.Fprintf(&b, "v0.4.8#0")
		for _, w := range words {
			fmt.Fprintf(&b, "\n0x%x", w)
		}
		if err := os.WriteFile(to, b.Bytes(), 0644); err != nil {
			t.Fatal(err)
		}
	}
	save() // in case the next run ends the process
	if !fails(words) {
		return
	}
	end := time.Now().Add(15 * time.Second)
	try := func(c []uint64) bool {
		if time.Now().After(end) || !fails(c) {
			return false
		}
		words = c
		return true
	}
	for round := 0; round < 4 && time.Now().Before(end); round++ {
		n := len(words)
		for size := len(words); size > 0; size /= 2 {
			for i := 0; i+size <= len(words); {
				if !try(append(append([]uint64{}, words[:i]...), words[i+size:]...)) {
					i += size
				}
			}
		}
		for i := range words {
			for _, v := range []uint64{0, 1, words[i] >> 32, words[i] >> 8, words[i] >> 1, words[i] - 1} {
				if i < len(words) && v < words[i] {
					c := append([]uint64{}, words...)
					c[i] = v
					try(c)
				}
			}
		}
		if n == len(words) && round > 1 {
			break
		}
	}
	save()
}
