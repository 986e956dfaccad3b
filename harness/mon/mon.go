// Package mon runs a fixed list of cases of one property in watched child
// processes and turns what the monitors saw into a verdict and evidence.
package mon

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"runtime/debug"
	"strings"
)

// Prop is one property: a list of cases and the oracle that judges them.
type Prop struct {
	ID       string
	Level    string // exploration or fault_enumeration
	Rule     string
	Assume   []string
	Quick    int // number of random cases, quick tier
	Thorough int
	Directed int      // number of directed cases, run before the random ones
	Need     []string // events without which the run has observed nothing
	Run      func(c *C)
}

// C is the context of one case.
type C struct {
	*rand.Rand
	Prop     *Prop
	I        int // case number
	Thorough bool
	w        *worker
	noted    []string
}

// Directed reports whether this is the directed case number k.
func (c *C) Directed() (int, bool) {
	if c.I < c.Prop.Directed {
		return c.I, true
	}
	return -1, false
}

// stop unwinds one case.
type stop struct{}

// Fail reports a violation and ends the case.
func (c *C) Fail(format string, args ...interface{}) {
	c.Violate(format, args...)
	panic(stop{})
}

// Violate reports a violation and goes on.
func (c *C) Violate(format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	c.w.violation(c.I, msg, c.noted)
}

// Skip ends the case without a verdict (it is counted).
func (c *C) Skip(why string) {
	c.Event("skipped:" + why)
	panic(stop{})
}

// Known reports an occurrence of a listed finding; an unlisted one is a violation.
func (c *C) Known(id string, format string, args ...interface{}) {
	if _, ok := c.w.known[id]; ok {
		c.w.res.Known[id]++
		return
	}
	c.Fail("[%s, not listed in known-findings] "+format, append([]interface{}{id}, args...)...)
}

// Note records a step of the history, shown when the case fails.
func (c *C) Note(format string, args ...interface{}) {
	if len(c.noted) < 400 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		c.noted = append(c.noted, s)
	}
}

// Event counts something a monitor observed.
func (c *C) Event(name string) { c.w.res.Events[name]++ }

// EventN counts n observations.
func (c *C) EventN(name string, n int) { c.w.res.Events[name] += int64(n) }

// Shape records the observable shape of a non-trivial case.
func (c *C) Shape(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	c.w.shape(h.Sum64())
}

// ShapeHash is Shape for a shape that was already hashed.
func (c *C) ShapeHash(h uint64) { c.w.shape(h) }

// Sample offers a written-out case for the evidence file.
func (c *C) Sample(format string, args ...interface{}) {
	if len(c.w.res.Samples) < 4 && c.w.sampleDue(c.I) {
		s := fmt.Sprintf(format, args...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.w.res.Samples = append(c.w.res.Samples, s)
	}
}

// N returns a number in [0,n), 0 for n<=0.
func (c *C) N(n int) int {
	if n <= 0 {
		return 0
	}
	return c.IntN(n)
}

// Range returns a number in [lo,hi].
func (c *C) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + c.IntN(hi-lo+1)
}

// Steps is the length of a history: from lo to hi, now and then many times as long.
func (c *C) Steps(lo, hi int) int {
	if c.N(250) == 0 {
		c.Event("long histories")
		return c.Range(4*hi, 12*hi)
	}
	return c.Range(lo, hi)
}

// P is true with probability p/100.
func (c *C) P(p int) bool { return c.IntN(100) < p }

// Bytes returns n random bytes in a style chosen at random.
func (c *C) Bytes(n int) []byte {
	b := make([]byte, n)
	switch c.IntN(6) {
	case 0: // all zero
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		for i := range b {
			b[i] = byte(c.IntN(4))
		}
	default:
		c.Fill(b)
	}
	return b
}

// Fill fills b with random bytes.
func (c *C) Fill(b []byte) {
	i := 0
	for ; i+8 <= len(b); i += 8 {
		v := c.Uint64()
		for k := 0; k < 8; k++ {
			b[i+k] = byte(v >> (8 * k))
		}
	}
	for ; i < len(b); i++ {
		b[i] = byte(c.IntN(256))
	}
}

// Pick returns one of the values.
func Pick[T any](c *C, vs ...T) T { return vs[c.IntN(len(vs))] }

// Size picks a size in [0,max], biased to small and to the given boundaries.
func (c *C) Size(max int, bounds ...int) int {
	switch c.IntN(4) {
	case 0:
		return c.Range(0, min(max, 8))
	case 1:
		if len(bounds) > 0 {
			return clamp(bounds[c.IntN(len(bounds))]+c.Range(-2, 2), 0, max)
		}
		return c.Range(0, min(max, 64))
	case 2:
		return c.Range(0, min(max, 300))
	}
	return c.Range(0, max)
}

func clamp(v, lo, hi int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func (p *Prop) rng(seed uint64, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", p.ID, seed)
	return rand.New(rand.NewPCG(h.Sum64(), uint64(i)*0x9e3779b97f4a7c15+seed))
}

// Try calls f and reports a panic as a violation of the running case.
func (c *C) Try(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				panic(r)
			}
			c.Fail("%s panicked: %v\n%s", what, r, trimStack(debug.Stack()))
		}
	}()
	f()
}

func trimStack(b []byte) string {
	s := string(b)
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = append(lines[:40], "...")
	}
	return strings.Join(lines, "\n")
}

// Hex prints bytes, shortened.
func Hex(b []byte) string {
	if len(b) > 96 {
		return fmt.Sprintf("%x..(%d bytes)..%x", b[:64], len(b), b[len(b)-16:])
	}
	return fmt.Sprintf("%x", b)
}

// Diff describes the first difference of two byte strings.
func Diff(got, want []byte) string {
	n := min(len(got), len(want))
	i := 0
	for i < n && got[i] == want[i] {
		i++
	}
	lo := max(0, i-8)
	return fmt.Sprintf("length %d, want %d; first difference at byte %d: got ..%x want ..%x",
		len(got), len(want), i, got[lo:min(len(got), i+24)], want[lo:min(len(want), i+24)])
}
