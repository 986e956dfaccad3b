// Package kit holds the instrumented readers, writers and buffers the monitors use.
package kit

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"

	"verif/mon"
)

// ErrInjected is the fault the readers and writers inject.
var ErrInjected = errors.New("injected-fault-7f3a")

// Reader delivers a byte string in pieces and counts what was taken.
type Reader struct {
	Data     []byte
	Off      int
	Next     func(left int) int // size of the next delivery (0 allowed)
	EOFWith  bool               // deliver the end-of-file signal with the last bytes
	FailAt   int                // position at which the fault occurs, -1 never
	FailWith bool               // deliver the fault with the bytes before it
	Err      error
	Calls    int
	Faulted  bool
	zeroRun  int
}

// NewReader returns a reader delivering everything asked for.
func NewReader(p []byte) *Reader { return &Reader{Data: p, FailAt: -1, Err: ErrInjected} }

func (r *Reader) Read(p []byte) (int, error) {
	r.Calls++
	if len(p) == 0 {
		return 0, nil
	}
	end := len(r.Data)
	if r.FailAt >= 0 && r.FailAt < end {
		end = r.FailAt
	}
	left := end - r.Off
	atFail := r.FailAt >= 0 && r.FailAt <= len(r.Data)
	if left <= 0 {
		if atFail {
			r.Faulted = true
			return 0, r.Err
		}
		return 0, io.EOF
	}
	n := min(left, len(p))
	if r.Next != nil {
		k := r.Next(n)
		if k <= 0 {
			r.zeroRun++
			if r.zeroRun < 3 {
				return 0, nil
			}
			k = 1
		}
		r.zeroRun = 0
		n = min(n, k)
	}
	copy(p, r.Data[r.Off:r.Off+n])
	r.Off += n
	if r.Off == end {
		if atFail && r.FailWith {
			r.Faulted = true
			return n, r.Err
		}
		if !atFail && r.EOFWith {
			return n, io.EOF
		}
	}
	return n, nil
}

// Chunked returns a reader with a delivery pattern chosen at random, and its name.
func Chunked(c *mon.C, p []byte) (*Reader, string) {
	r := NewReader(p)
	r.EOFWith = c.P(50)
	name := "whole"
	switch c.N(7) {
	case 5: // a delivery ends with each line
		r.Next, name = func(l int) int {
			if i := bytes.IndexByte(r.Data[r.Off:r.Off+l], '\n'); i >= 0 {
				return i + 1
			}
			return l
		}, "lines"
	case 6: // two pieces
		at := c.N(len(p) + 1)
		if i := bytes.Index(p, []byte("\r\n\r\n")); i >= 0 && c.P(50) {
			at = i + 4
		}
		r.Next, name = func(l int) int {
			if r.Off < at {
				return at - r.Off
			}
			return l
		}, "two pieces"
	case 0:
		r.Next, name = func(int) int { return 1 }, "one-byte"
	case 1:
		k := c.Range(2, 9)
		r.Next, name = func(int) int { return k }, fmt.Sprint("fixed-", k)
	case 2:
		r.Next, name = func(l int) int { return c.Range(0, min(l, 12)) }, "random-with-empty"
	case 3:
		r.Next, name = func(l int) int { return c.Range(1, l) }, "random"
	}
	if r.EOFWith {
		name += "+eof"
	}
	return r, name
}

// Writer records everything written and can fail at a chosen write.
type Writer struct {
	Buf     bytes.Buffer
	FailAt  int  // index of the write that fails, -1 never
	Partial int  // bytes of the failing write that are taken before it fails
	Whole   bool // the failing write takes all its bytes and still fails
	Err     error
	Calls   int
	After   int // writes made after a failure
	failed  bool
	Sizes   []int
}

// NewWriter returns a writer that never fails.
func NewWriter() *Writer { return &Writer{FailAt: -1, Err: ErrInjected} }

func (w *Writer) Write(p []byte) (int, error) {
	k := w.Calls
	w.Calls++
	if w.failed {
		w.After++
		return 0, w.Err
	}
	if len(w.Sizes) < 4096 {
		w.Sizes = append(w.Sizes, len(p))
	}
	if k == w.FailAt {
		w.failed = true
		n := min(w.Partial, max(0, len(p)-1))
		if w.Whole {
			n = len(p)
		}
		w.Buf.Write(p[:n])
		return n, w.Err
	}
	w.Buf.Write(p)
	return len(p), nil
}

// Failed tells whether the fault was delivered.
func (w *Writer) Failed() bool { return w.failed }

// Guarded is a slice with guard bytes before it, after it and in its spare capacity.
type Guarded struct {
	whole, want []byte
	S           []byte
}

// Guard copies p into a guarded slice.
func Guard(p []byte) *Guarded {
	const g = 40
	w := make([]byte, g+len(p)+g)
	for i := range w {
		w[i] = byte(0xA5 ^ i*7)
	}
	copy(w[g:], p)
	return &Guarded{whole: w, want: append([]byte(nil), w...), S: w[g : g+len(p)]}
}

// Check returns a description of what was modified, or "".
func (g *Guarded) Check() string {
	for i := range g.whole {
		if g.whole[i] != g.want[i] {
			return fmt.Sprintf("byte %d (of %d data bytes, negative and beyond are outside the slice) changed from %02x to %02x", i-40, len(g.S), g.want[i], g.whole[i])
		}
	}
	return ""
}

// Scribble overwrites the whole buffer.
func (g *Guarded) Scribble(b byte) {
	for i := range g.whole {
		g.whole[i] ^= b | 1
		g.want[i] ^= b | 1
	}
}

// Alloc returns the bytes allocated while f ran.
func Alloc(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}
