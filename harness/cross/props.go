package cross

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/mon"
)

// Props lists the properties of this area.
func Props() []*mon.Prop {
	return []*mon.Prop{
		{ID: "X01", Level: "exploration", Quick: 12000, Thorough: 400000, Directed: 48, Run: independent,
			Rule: "2-6 instances of scripts drawn from 12 kinds (codecs, FLV and TS mixers and muxers, demuxer, parsers, GOP cache, SIP messages, values and header maps, descriptors) run alone, interleaved on one goroutine, and on one goroutine each in a race-detector build; distinct by the order in which the calls of the instances really started",
			Need: append(each("instances: "), "calls made concurrently", "calls that overlapped", "calls interleaved on one goroutine", "traces compared")},
		{ID: "X02", Level: "exploration", Quick: 60000, Thorough: 3000000, Run: untouched,
			Rule: "scripts as in X01 with guarded inputs checked after every call, then run again with every finished input overwritten; distinct by script kind, call sequence and input sizes",
			Need: append(each("instances: "), "inputs checked", "inputs overwritten", "traces compared")},
		{ID: "X03", Level: "fault_enumeration", Quick: 150000, Thorough: 6000000, Run: faulty,
			Rule: "every operation that writes, on fresh instances, with a fault at each write of its fault-free run (all of up to 60 writes, else the first 30, the last 10 and 20 others) and with no, some and all bytes of the failing write taken; distinct by operation, number of writes and fault position",
			Need: append(eachWriter("faults: "), "faults injected", "operations used again after a fault")},
	}
}

func each(prefix string) (n []string) {
	for _, k := range kinds {
		n = append(n, prefix+k.name)
	}
	return
}

// again returns a context that generates the same things every time.
func again(c *mon.C, a, b uint64) *mon.C {
	d := *c
	d.Rand = rand.New(rand.NewPCG(a, b))
	return &d
}

func call(o op) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	return o.do()
}

func isPanic(s string) bool { return len(s) > 6 && s[:6] == "panic:" }

// alone runs a fresh instance by itself.
func alone(c *mon.C, s *script) (trace []string) {
	for i, o := range s.make() {
		t := call(o)
		if isPanic(t) || strings.HasPrefix(t, changed) {
			c.Fail("%s: call %d (%s) of an instance used alone: %s", s.kind, i, o.name, t)
		}
		trace = append(trace, t)
	}
	return
}

func compare(c *mon.C, s *script, how string, ops []op, got, want []string) {
	for i := range want {
		if got[i] != want[i] {
			c.Fail("%s, %s: call %d (%s) gave\n%s\nalone it gives\n%s", s.kind, how, i, ops[i].name, cut(got[i]), cut(want[i]))
		}
	}
	c.Event("traces compared")
}

func independent(c *mon.C) {
	n := c.Range(2, 6)
	var ss []*script
	k, forced := c.Directed()
	if forced { // the first uses of everything, by all instances at once
		kind := kinds[k%len(kinds)]
		s := &script{kind: kind.name, shares: c.P(50)}
		kind.gen(c, s)
		for n = 4; len(ss) < n; {
			ss = append(ss, s)
		}
	}
	for len(ss) < n {
		if len(ss) > 0 && c.P(60) { // the same kind or even the same inputs
			s := ss[c.N(len(ss))]
			if c.P(50) {
				k := s.kind
				t := newScript(c)
				for i := 0; i < 40 && t.kind != k; i++ {
					t = newScript(c)
				}
				s = t
			}
			ss = append(ss, s)
			continue
		}
		ss = append(ss, newScript(c))
	}
	want := make([][]string, n)
	prints := make([][]string, n)
	for i, s := range ss {
		c.Note("instance %d: %s", i, s.kind)
		c.Event("instances: " + s.kind)
		prints[i] = s.prints()
	}
	checkAll := func(how string) {
		for i, s := range ss {
			if d := s.check(prints[i]); d != "" {
				c.Fail("%s, %s: %s", s.kind, how, d)
			}
		}
	}
	// What is made at the first use must be safe as well: the goroutines come
	// first in half of the cases and in all of the first ones.
	early := forced || c.P(50)
	var after func()
	if early {
		after = concurrently(c, ss, want, checkAll)
	}
	for i, s := range ss {
		want[i] = alone(c, s)
	}
	checkAll("alone")

	// interleaved on one goroutine
	ops := make([][]op, n)
	got := make([][]string, n)
	total := 0
	for i, s := range ss {
		ops[i] = s.make()
		total += len(ops[i])
	}
	order := fnv.New64a()
	for left := total; left > 0; left-- {
		i := c.N(n)
		for len(got[i]) == len(ops[i]) {
			i = (i + 1) % n
		}
		order.Write([]byte{byte(i)})
		k := len(got[i])
		got[i] = append(got[i], call(ops[i][k]))
	}
	c.EventN("calls interleaved on one goroutine", total)
	for i, s := range ss {
		compare(c, s, "interleaved with other instances on one goroutine", ops[i], got[i], want[i])
	}
	c.ShapeHash(order.Sum64())
	checkAll("interleaved")

	if !early {
		after = concurrently(c, ss, want, checkAll)
	}
	after()
	c.Sample("instances %v, %d calls", names(ss), total)
}

// concurrently runs each instance on a goroutine of its own and returns the
// comparison with what the instances gave alone.
func concurrently(c *mon.C, ss []*script, want [][]string, checkAll func(string)) func() {
	n := len(ss)
	ops := make([][]op, n)
	got := make([][]string, n)
	total := 0
	type stamp struct {
		start, end time.Time
		who        int
	}
	stamps := make([][]stamp, n)
	yields := make([][]byte, n)
	for i, s := range ss {
		ops[i] = s.make()
		total += len(ops[i])
		got[i] = make([]string, len(ops[i]))
		stamps[i] = make([]stamp, len(ops[i]))
		yields[i] = make([]byte, len(ops[i]))
		for k := range yields[i] {
			if c.P(20) {
				yields[i][k] = byte(c.N(4))
			}
		}
	}
	old := runtime.GOMAXPROCS(4)
	gate := make(chan struct{})
	var wg sync.WaitGroup
	for i := range ss {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-gate
			for k, o := range ops[i] {
				for y := yields[i][k]; y > 0; y-- {
					runtime.Gosched()
				}
				t0 := time.Now() // no synchronisation that could hide a race
				got[i][k] = call(o)
				stamps[i][k] = stamp{t0, time.Now(), i}
			}
		}(i)
	}
	close(gate)
	wg.Wait()
	runtime.GOMAXPROCS(old)
	checkAll("concurrently")
	var all []stamp
	for i := range ss {
		all = append(all, stamps[i]...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].start.Before(all[j].start) })
	h := fnv.New64a()
	last := make([]time.Time, n)
	for _, s := range all {
		h.Write([]byte{byte(s.who)})
		for w, e := range last {
			if w != s.who && e.After(s.start) {
				c.Event("calls that overlapped")
				break
			}
		}
		last[s.who] = s.end
	}
	c.EventN("calls made concurrently", total)
	c.ShapeHash(h.Sum64())
	return func() {
		for i, s := range ss {
			compare(c, s, "concurrently with other instances", ops[i], got[i], want[i])
		}
	}
}

func names(ss []*script) (k []string) {
	for _, s := range ss {
		k = append(k, s.kind)
	}
	return
}

func untouched(c *mon.C) {
	a, b := c.Uint64(), c.Uint64()
	s := newScript(again(c, a, b))
	c.Note("%s, %d inputs", s.kind, len(s.bufs))
	c.Event("instances: " + s.kind)
	prints := s.prints()
	ops := s.make()
	var want []string
	h := fnv.New64a()
	for i, o := range ops {
		t := call(o)
		if isPanic(t) || strings.HasPrefix(t, changed) {
			c.Fail("%s: call %d (%s): %s", s.kind, i, o.name, t)
		}
		if strings.HasPrefix(t, asK10) {
			c.Known("K10", "%s: call %d (%s): the media of the packet became the kept header", s.kind, i, o.name)
		}
		want = append(want, t)
		fmt.Fprint(h, o.name)
		if len(s.bufs) <= 40 || i == len(ops)-1 {
			if d := s.check(prints); d != "" {
				c.Fail("%s: call %d (%s) modified its input: %s", s.kind, i, o.name, d)
			}
		}
	}
	c.EventN("inputs checked", len(s.bufs)+len(s.vals))

	// the same again, the caller reusing its buffers at once
	s2 := newScript(again(c, a, b))
	if s2.kind != s.kind || len(s2.bufs) != len(s.bufs) {
		c.Fail("harness: the script was not generated again alike")
	}
	ops2 := s2.make()
	with := byte(c.N(256))
	prints2 := s2.prints()
	var got []string
	for _, o := range ops2 {
		got = append(got, call(o))
		for _, g := range o.done {
			if d := g.Check(); d != "" {
				c.Fail("%s: %s modified its input: %s", s.kind, o.name, d)
			}
			g.Scribble(with)
			c.Event("inputs overwritten")
		}
	}
	compare(c, s, "with the finished inputs overwritten", ops, got, want)
	if d := s2.check(prints2); d != "" {
		c.Fail("%s: written to after the call: %s", s.kind, d)
	}
	for _, g := range s.bufs {
		fmt.Fprint(h, " ", len(g.S))
	}
	c.ShapeHash(h.Sum64())
	c.Sample("%s, calls %d, inputs %d", s.kind, len(ops), len(s.bufs))
}
