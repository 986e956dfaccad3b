package amf

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/moggle-mog/goav/amf"

	"verif/mon"
)

type (
	myString string
	myBool   bool
	myInt    int16
	myFloat  float32
	mySlice  []string
)

var floats = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1e300, -1e-300, math.MaxFloat64, math.SmallestNonzeroFloat64,
	math.Inf(1), math.Inf(-1), math.NaN(), 1 << 53, 1<<53 + 1, 268435455, 268435456, 4294967296, math.Pi}

func genFloat(c *mon.C) float64 {
	switch c.N(3) {
	case 0:
		return floats[c.N(len(floats))]
	case 1:
		return math.Float64frombits(c.Uint64())
	}
	return float64(c.Range(-100000, 100000)) / 8
}

// genStr makes a string; now and then one of a boundary length.
func genStr(c *mon.C, big bool) string {
	n := 0
	switch c.N(8) {
	case 0:
		n = 0
	case 1:
		n = c.Range(60, 68)
	case 2:
		n = c.Range(124, 130)
	case 3:
		n = c.Range(0, 300)
	default:
		n = c.Range(1, 12)
	}
	if big && c.P(6) {
		n = mon.Pick(c, 8190, 8191, 8192, 8193, 16383, 16384, 65534, 65535, 65536, 65537, 65540, 131072, 70001)
		if c.P(6) {
			n = mon.Pick(c, 1048575, 1048576, 1048577, 2097151, 300000)
		}
	}
	return genStrN(c, n)
}

func genStrN(c *mon.C, n int) string {
	switch c.N(4) {
	case 0:
		return string(c.Bytes(n))
	case 1:
		s := strings.Repeat("日本ключ", n/4+1)
		return s[:n]
	case 2:
		if n > 64 {
			return strings.Repeat("x\x00\x09", n/3+1)[:n]
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz_@0123456789"[c.N(38)]
	}
	return string(b)
}

func genKey(c *mon.C, i int) string {
	switch c.N(10) {
	case 0:
		return string(append(c.Bytes(c.Range(1, 4)), fmt.Sprint(i)...))
	case 1:
		return genStrN(c, c.Range(1, 70)) + fmt.Sprint("#", i)
	}
	return fmt.Sprint(mon.Pick(c, "k", "width", "duration", "x", "长"), i)
}

// millis is the number of milliseconds since 1970 of t.
func millis(t time.Time) float64 { return float64(t.UnixMilli()) }

func genTime(c *mon.C) time.Time {
	var s int64
	switch c.N(4) {
	case 0:
		s = int64(c.Range(-3, 3))
	case 1:
		s = c.Int64N(62135596800+253402300800) - 62135596800
	default:
		s = int64(c.Range(0, 2000000000))
	}
	t := time.Unix(s, 0)
	if c.N(2) == 0 { // milliseconds, at times with a part that is none of them
		t = t.Add(time.Duration(mon.Pick(c, 1, 500, 999, c.Range(0, 999))) * time.Millisecond)
		if c.P(10) {
			t = t.Add(time.Duration(c.Range(0, 999999)))
		}
	}
	switch c.N(3) {
	case 0:
		return t.UTC()
	case 1:
		return t.In(time.FixedZone("x", c.Range(-43200, 43200)))
	}
	return t
}

// goGen generates Go values to encode, with the node each must denote.
type goGen struct {
	c      *mon.C
	amf3   bool
	big    bool
	budget int
}

// value returns a value and what it must decode to.
func (g *goGen) value(depth int) (interface{}, *node) {
	c := g.c
	g.budget--
	k := c.N(22)
	if depth <= 0 || g.budget <= 0 {
		k = c.N(13)
	}
	switch k {
	case 0:
		return nil, &node{k: kNull}
	case 1:
		b := c.P(50)
		if c.P(30) {
			return myBool(b), &node{k: kBool, b: b}
		}
		return b, &node{k: kBool, b: b}
	case 2, 3:
		f := genFloat(c)
		return f, &node{k: kNum, f: f}
	case 4:
		f := float32(genFloat(c))
		if c.P(30) {
			return myFloat(f), &node{k: kNum, f: float64(f)}
		}
		return f, &node{k: kNum, f: float64(f)}
	case 5, 6, 7:
		return g.integer()
	case 8, 9, 10:
		s := genStr(c, g.big)
		if c.P(15) {
			return myString(s), &node{k: kStr, s: s}
		}
		return s, &node{k: kStr, s: s}
	case 11:
		t := genTime(c)
		return t, &node{k: kDate, ms: millis(t)}
	case 12:
		b := c.Bytes(c.Size(200, 63, 64))
		if g.big && c.P(4) {
			b = c.Bytes(mon.Pick(c, 8191, 8192, 65536))
		}
		if g.amf3 {
			return b, &node{k: kBytes, s: string(b)}
		}
		n := &node{k: kStrict}
		for _, x := range b {
			n.items = append(n.items, &node{k: kNum, f: float64(x)})
		}
		return b, n
	case 13, 14, 15:
		o, n := g.object(depth, kObj)
		return o, n
	case 16, 17:
		o, n := g.object(depth, kTyped)
		n.s = genStr(c, false)
		return amf.TypedObject{Type: n.s, Object: o}, n
	default:
		return g.array(depth)
	}
}

func (g *goGen) integer() (interface{}, *node) {
	c := g.c
	edge := []int64{0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 536870911, 536870912, 2147483647, -1, -2, -128, -268435456, -268435457, -2147483648}
	var v int64
	switch c.N(3) {
	case 0:
		v = edge[c.N(len(edge))]
	case 1:
		v = int64(c.Uint64()) >> c.N(64)
	default:
		v = int64(c.Range(-300, 70000))
	}
	node3 := func(v int64, wide bool) *node {
		if g.amf3 && !wide && v >= 0 && v < 1<<28 {
			return &node{k: kInt, u: uint32(v)}
		}
		return &node{k: kNum, f: float64(v)}
	}
	switch c.N(11) {
	case 0:
		return int(v), node3(int64(int(v)), false)
	case 1:
		return int8(v), node3(int64(int8(v)), false)
	case 2:
		return int16(v), node3(int64(int16(v)), false)
	case 3:
		return int32(v), node3(int64(int32(v)), false)
	case 4:
		return v, node3(v, true)
	case 5:
		u := uint(v)
		if u >= 1<<28 {
			return u, &node{k: kNum, f: float64(u)}
		}
		return u, node3(int64(u), false)
	case 6:
		return uint8(v), node3(int64(uint8(v)), false)
	case 7:
		return uint16(v), node3(int64(uint16(v)), false)
	case 8:
		return uint32(v), node3(int64(uint32(v)), false)
	case 9:
		return uint64(v), &node{k: kNum, f: float64(uint64(v))}
	}
	return myInt(v), node3(int64(int16(v)), false)
}

func (g *goGen) count() int {
	c := g.c
	if g.big && c.P(3) {
		g.budget = 0
		return mon.Pick(c, 7, 8, 9, 63, 64, 65, 127, 128, 1023, 1024, 1025)
	}
	return c.Range(0, 6)
}

func (g *goGen) object(depth int, k kind) (amf.Object, *node) {
	c := g.c
	n := &node{k: k}
	cnt := g.count()
	if cnt == 0 && c.P(40) {
		return nil, n
	}
	o := amf.Object{}
	for i := 0; i < cnt; i++ {
		key := genKey(c, i)
		if g.amf3 && c.P(1) {
			key = ""
		}
		if g.big && c.P(1) {
			key = genStrN(c, mon.Pick(c, 65535, 65534, 300)-3) + fmt.Sprintf("%03d", i%1000)
		}
		if _, dup := o[key]; dup {
			continue
		}
		v, vn := g.value(depth - 1)
		o[key] = v
		n.keys, n.vals = append(n.keys, key), append(n.vals, vn)
	}
	return o, n
}

func (g *goGen) array(depth int) (interface{}, *node) {
	c := g.c
	k := kStrict
	if g.amf3 {
		k = kArr3
	}
	n := &node{k: k}
	cnt := g.count()
	add := func(x *node) { n.items = append(n.items, x) }
	num := func(v int) *node {
		if g.amf3 && v >= 0 && v < 1<<28 {
			return &node{k: kInt, u: uint32(v)}
		}
		return &node{k: kNum, f: float64(v)}
	}
	switch c.N(8) {
	case 0:
		var a []int
		for i := 0; i < cnt; i++ {
			v := c.Range(-1000, 1<<30)
			a = append(a, v)
			add(num(v))
		}
		return a, n
	case 1:
		var a mySlice
		for i := 0; i < cnt; i++ {
			s := genStr(c, false)
			a = append(a, s)
			add(&node{k: kStr, s: s})
		}
		return a, n
	case 2:
		a := [3]float64{genFloat(c), genFloat(c), genFloat(c)}
		for _, f := range a {
			add(&node{k: kNum, f: f})
		}
		return a, n
	case 3:
		return [0]string{}, n
	case 4:
		var a []interface{}
		for i := 0; i < cnt; i++ {
			v, vn := g.value(depth - 1)
			a = append(a, v)
			add(vn)
		}
		return a, n
	case 5:
		var a []amf.Object
		for i := 0; i < min(cnt, 3); i++ {
			o, on := g.object(depth-1, kObj)
			a = append(a, o)
			add(on)
		}
		return a, n
	}
	var a amf.Array
	for i := 0; i < cnt; i++ {
		v, vn := g.value(depth - 1)
		a = append(a, v)
		add(vn)
	}
	return a, n
}

// unencodable returns a value the codec cannot carry.
func (g *goGen) unencodable() (interface{}, string) {
	c := g.c
	k := c.N(9)
	if g.amf3 && k >= 6 {
		k = c.N(6)
	}
	switch k {
	case 0:
		return make(chan int), "channel"
	case 1:
		return func() {}, "function"
	case 2:
		return struct{ A int }{1}, "struct"
	case 3:
		return complex(1, 2), "complex"
	case 4:
		x := 1
		return &x, "pointer"
	case 5:
		return map[int]string{1: "a"}, "map"
	case 6:
		return amf.Object{"a": 1, "": 2}, "empty key"
	case 7:
		return amf.Object{genStrN(c, 65536+c.Range(0, 3)*32768): 1}, "long key"
	}
	return amf.TypedObject{Type: genStrN(c, 65536+c.Range(0, 2)*65536), Object: amf.Object{"a": 1}}, "long type name"
}

// wrap buries v in containers.
func (g *goGen) wrap(v interface{}) interface{} {
	for i := g.c.N(4); i > 0; i-- {
		switch g.c.N(3) {
		case 0:
			v = amf.Object{"p": v}
		case 1:
			v = amf.Array{1, v, "z"}
		case 2:
			v = amf.TypedObject{Type: "T", Object: amf.Object{"q": v}}
		}
	}
	return v
}

// shape is a short structural signature of a node.
func (n *node) shape(b *strings.Builder, depth int) {
	fmt.Fprintf(b, "%d", n.k)
	switch n.k {
	case kStr, kXML, kXMLDoc, kBytes:
		fmt.Fprintf(b, "l%d", bucket(len(n.s)))
	case kInt:
		fmt.Fprintf(b, "i%d", bucket(int(n.u)))
	}
	if depth > 4 {
		return
	}
	if len(n.vals)+len(n.items) > 0 {
		b.WriteByte('(')
		for i, v := range n.vals {
			if i < 8 {
				v.shape(b, depth+1)
			}
		}
		b.WriteByte('/')
		for i, v := range n.items {
			if i < 8 {
				v.shape(b, depth+1)
			}
		}
		fmt.Fprintf(b, "#%d)", bucket(len(n.vals)+len(n.items)))
	}
}

func shapeOf(n *node) string {
	var b strings.Builder
	n.shape(&b, 0)
	return b.String()
}

func bucket(n int) int {
	k := 0
	for n > 0 {
		n >>= 1
		k++
	}
	return k
}

// wireGen generates nodes to be written by the reference encoders.
type wireGen struct {
	c      *mon.C
	amf3   bool
	plain  bool // no shared values
	noExt  bool
	noSw   bool // no AMF0 to AMF3 switch
	budget int
	pool   []*node // finished complex values that may be referenced again
	open   []*node // enclosing objects (cycles)
	strs   []string
	traits []*node
}

func (g *wireGen) str() string {
	c := g.c
	if len(g.strs) > 0 && c.P(40) {
		return g.strs[c.N(len(g.strs))]
	}
	s := genStr(c, c.P(10))
	g.strs = append(g.strs, s)
	return s
}

func (g *wireGen) value(depth int) *node {
	c := g.c
	g.budget--
	if !g.plain && c.P(18) {
		if len(g.open) > 0 && c.P(35) {
			return g.open[c.N(len(g.open))]
		}
		if len(g.pool) > 0 {
			return g.pool[c.N(len(g.pool))]
		}
	}
	if g.amf3 {
		return g.value3(depth)
	}
	return g.value0(depth)
}

func (g *wireGen) value0(depth int) *node {
	c := g.c
	k := c.N(20)
	if depth <= 0 || g.budget <= 0 {
		k = c.N(12)
	}
	switch k {
	case 0:
		return &node{k: kNull}
	case 1:
		return &node{k: mon.Pick(c, kUndef, kUnsup)}
	case 2:
		n := &node{k: kBool, b: c.P(50)}
		if n.b && c.P(10) {
			n.form = mon.Pick(c, 2, 3, 128, 255, c.Range(2, 255))
		}
		return n
	case 3, 4, 5:
		return &node{k: kNum, f: genFloat(c)}
	case 6, 7:
		return &node{k: kStr, s: g.str()}
	case 8:
		return &node{k: kStr, s: g.str(), form: 1}
	case 9:
		return &node{k: kXML, s: genStr(c, c.P(10))}
	case 10, 11:
		return &node{k: kDate, ms: genFloat(c), form: mon.Pick(c, 0, 0, c.Range(0, 65535), 0xfed4, 9, 0x900)}
	case 12:
		if g.noSw {
			return &node{k: kNull}
		}
		in := &wireGen{c: c, amf3: true, plain: true, budget: 10, noExt: true}
		return &node{k: kAMF3, items: []*node{in.value(min(depth, 3))}}
	case 13, 14, 15:
		n := &node{k: mon.Pick(c, kObj, kObj, kEcma)}
		if n.k == kEcma && c.P(20) { // the count is no more than a hint
			n.form = int(mon.Pick(c, 1, 2, 3, 256, 1<<16, 1<<31, 1<<32-1, max(1, c.Uint32())))
		}
		return g.members(n, depth)
	case 16, 17:
		return g.members(&node{k: kTyped, s: genStr(c, false)}, depth)
	}
	n := &node{k: kStrict}
	for i := g.count(); i > 0; i-- {
		n.items = append(n.items, g.value(depth-1))
	}
	g.pool = append(g.pool, n)
	return n
}

func (g *wireGen) count() int {
	if g.c.P(2) && g.budget > 5 {
		g.budget = 0
		return mon.Pick(g.c, 63, 64, 65, 200)
	}
	return g.c.Range(0, 5)
}

func (g *wireGen) members(n *node, depth int) *node {
	g.open = append(g.open, n)
	for i := g.count(); i > 0; i-- {
		k := genKey(g.c, i)
		if g.c.P(20) {
			if s := g.str(); s != "" && len(s) < 65536 {
				k = s
			}
		}
		if has(n.keys, k) {
			continue
		}
		v := g.value(depth - 1)
		n.keys, n.vals = append(n.keys, k), append(n.vals, v)
	}
	g.open = g.open[:len(g.open)-1]
	g.pool = append(g.pool, n)
	return n
}

func has(ks []string, k string) bool {
	for _, x := range ks {
		if x == k {
			return true
		}
	}
	return false
}

func (g *wireGen) done(n *node) *node { g.pool = append(g.pool, n); return n }

func (g *wireGen) value3(depth int) *node {
	c := g.c
	k := c.N(26)
	if depth <= 0 || g.budget <= 0 {
		k = c.N(15)
	}
	switch k {
	case 0:
		return &node{k: mon.Pick(c, kNull, kUndef)}
	case 1:
		return &node{k: kBool, b: c.P(50)}
	case 2, 3, 4:
		v := c.Uint32() >> (3 + c.N(29))
		if c.P(30) {
			v = mon.Pick(c, uint32(0), 127, 128, 16383, 16384, 2097151, 2097152, 1<<28-1, 1<<28, 1<<29-1)
		}
		if v >= 1<<28 && !c.P(10) {
			v >>= 1
		}
		return &node{k: kInt, u: v}
	case 5, 6:
		return &node{k: kNum, f: genFloat(c)}
	case 7, 8, 9, 10:
		return &node{k: kStr, s: g.str()}
	case 11:
		return g.done(&node{k: mon.Pick(c, kXML, kXMLDoc), s: genStr(c, c.P(10))})
	case 12, 13:
		return g.done(&node{k: kBytes, s: genStr(c, c.P(10))})
	case 14:
		return g.done(&node{k: kDate, ms: millis(genTime(c))})
	case 15, 16, 17, 18:
		n := &node{k: kArr3}
		if c.P(40) {
			for i := c.Range(1, 4); i > 0; i-- {
				k := genKey(c, i)
				if has(n.keys, k) {
					continue
				}
				n.keys, n.vals = append(n.keys, k), append(n.vals, g.value(depth-1))
			}
		}
		for i := g.count(); i > 0; i-- {
			n.items = append(n.items, g.value(depth-1))
		}
		return g.done(n)
	case 19:
		if !g.noExt {
			return g.external(depth)
		}
	}
	n := &node{k: mon.Pick(c, kObj, kTyped)}
	if n.k == kTyped {
		n.s = genStrN(c, c.Range(1, 20))
		if n.s == arrayCollection || n.s == "DSA" || n.s == "DSK" {
			n.s += "x"
		}
	}
	n.dynamic = c.P(50)
	var sealed []string
	if len(g.traits) > 0 && c.P(50) {
		t := g.traits[c.N(len(g.traits))]
		n.k, n.s, n.dynamic = t.k, t.s, t.dynamic
		sealed = t.keys[:t.sealed]
	} else {
		for i := g.count(); i > 0; i-- {
			if k := genKey(c, i); !has(sealed, k) {
				sealed = append(sealed, k)
			}
		}
		if c.P(3) && !has(sealed, "") {
			sealed = append(sealed, "")
		}
	}
	n.sealed = len(sealed)
	n.keys = append(n.keys, sealed...)
	g.traits = append(g.traits, n)
	g.open = append(g.open, n)
	for range sealed {
		n.vals = append(n.vals, g.value(depth-1))
	}
	if n.dynamic {
		for i := c.Range(0, 3); i > 0; i-- {
			k := genKey(c, i+100)
			if has(n.keys, k) {
				continue
			}
			v := g.value(depth - 1)
			n.keys, n.vals = append(n.keys, k), append(n.vals, v)
		}
	}
	g.open = g.open[:len(g.open)-1]
	return g.done(n)
}

const handlerClass = "com.example.Ext"

// handlerClasses are the classes whose handlers every decoder registers.
var handlerClasses = []string{handlerClass, "com.example.Ext2", "e"}

func (g *wireGen) external(depth int) *node {
	c := g.c
	n := &node{k: kExt}
	switch c.N(4) {
	case 0:
		n.s = arrayCollection
		n.items = []*node{g.value(depth - 1)}
	case 1, 2:
		n.s = mon.Pick(c, "DSA", "DSK")
		secs := 2
		if n.s == "DSK" {
			secs = 3
		}
		for s := 0; s < secs; s++ {
			var sec []byte
			for i := mon.Pick(c, 1, 1, 2, 3, mon.Pick(c, 1, 2, 4, 5, 8, 9, 16, 40)); i > 0; i-- {
				fl := byte(c.N(128)) & byte(c.N(128))
				if i > 1 {
					fl |= 0x80
				}
				sec = append(sec, fl)
			}
			n.flags = append(n.flags, sec)
			for bn, fl := range sec {
				for bit := 0; bit < 7; bit++ {
					if fl>>bit&1 == 1 {
						n.keys = append(n.keys, flagName(s, bn, bit))
						n.vals = append(n.vals, g.value(depth-1))
					}
				}
			}
		}
	default:
		n.s = handlerClasses[c.N(len(handlerClasses))]
		n.raw = c.Bytes(c.N(20))
		for i := c.N(3); i > 0; i-- {
			n.items = append(n.items, g.value(depth-1))
		}
	}
	return g.done(n)
}
