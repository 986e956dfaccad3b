// Package amf monitors the AMF0/AMF3 codec and the metadata header helpers.
package amf

import (
	"fmt"
	"math"
	"reflect"
	"time"
	"unsafe"

	"github.com/moggle-mog/goav/amf"
)

type kind int

const (
	kNull kind = iota
	kUndef
	kUnsup
	kBool
	kNum
	kInt
	kStr
	kXML
	kXMLDoc
	kDate
	kObj
	kTyped
	kEcma
	kStrict
	kArr3 // AMF3 array: Keys/Vals associative, Items dense
	kBytes
	kExt  // externalizable
	kAMF3 // AMF0 switch to AMF3: Items[0]
)

// node is a value in neutral form; a node occurring twice is a reference.
type node struct {
	k     kind
	b     bool
	f     float64
	u     uint32
	s     string // string, xml, class name
	ms    float64
	keys  []string
	vals  []*node
	items []*node
	// AMF3 objects
	sealed  int // the first sealed keys belong to the traits
	dynamic bool
	flags   [][]byte // flag sections of the built-in message classes
	raw     []byte   // raw bytes of a registered external class
	form    int      // encoding variant (long string, time zone, ...)
}

func (n *node) complex0() bool {
	switch n.k {
	case kObj, kTyped, kEcma, kStrict:
		return true
	}
	return false
}

type seenKey struct {
	n *node
	p uintptr
}

// matcher compares decoded Go values with the nodes they must denote.
type matcher struct {
	amf3 bool
	seen map[seenKey]bool
	neg  int // AMF3 integers of 2^28 and more that came back unsigned (finding K8)
}

func newMatcher(amf3 bool) *matcher { return &matcher{amf3: amf3, seen: map[seenKey]bool{}} }

func sameFloat(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	return math.Float64bits(a) == math.Float64bits(b)
}

func short(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q..(%d)", s[:40], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// match returns "" or where and how v differs from n.
func (m *matcher) match(n *node, v interface{}, path string) string {
	bad := func() string { return fmt.Sprintf("%s: want %s, got %T %v", path, n.brief(), v, brief(v)) }
	switch n.k {
	case kNull, kUndef, kUnsup:
		if v != nil {
			return bad()
		}
	case kBool:
		if x, ok := v.(bool); !ok || x != n.b {
			return bad()
		}
	case kNum:
		if x, ok := v.(float64); !ok || !sameFloat(x, n.f) {
			return bad()
		}
	case kInt:
		want := int64(n.u)
		if n.u >= 1<<28 {
			want -= 1 << 29
		}
		got, ok := integer(v)
		if ok && got == want {
			return ""
		}
		if x, is := v.(uint32); is && n.u >= 1<<28 && x == n.u {
			m.neg++
			return ""
		}
		return bad()
	case kStr, kXML, kXMLDoc:
		if x, ok := v.(string); !ok || x != n.s {
			return bad()
		}
	case kDate:
		if m.amf3 {
			x, ok := v.(time.Time)
			if !ok || x.Nanosecond()%1000000 != 0 || millis(x) != n.ms {
				return bad()
			}
			if _, off := x.Zone(); off != 0 {
				return bad()
			}
			return ""
		}
		if x, ok := v.(float64); !ok || !sameFloat(x, n.ms) {
			return bad()
		}
	case kObj, kEcma:
		x, ok := v.(amf.Object)
		if !ok || x == nil {
			return bad()
		}
		return m.matchObj(n, x, path)
	case kTyped:
		if m.amf3 {
			x, ok := v.(amf.Object)
			if !ok || x == nil {
				return bad()
			}
			return m.matchObj(n, x, path)
		}
		x, ok := v.(amf.TypedObject)
		if !ok || x.Type != n.s || x.Object == nil {
			return bad()
		}
		return m.matchObj(n, x.Object, path)
	case kStrict:
		x, ok := v.(amf.Array)
		if !ok {
			return bad()
		}
		return m.matchItems(n.items, x, path)
	case kArr3:
		d, a, ok := splitEcma(v)
		if !ok {
			return bad()
		}
		if s := m.matchItems(n.items, d, path); s != "" {
			return s
		}
		return m.matchObj(n, a, path+".assoc")
	case kBytes:
		if x, ok := v.([]byte); !ok || string(x) != n.s {
			return bad()
		}
	case kExt:
		switch n.s {
		case "DSA", "DSK":
			x, ok := v.(amf.Object)
			if !ok || x == nil {
				return bad()
			}
			return m.matchObj(n, x, path)
		case arrayCollection:
			return m.match(n.items[0], v, path+".source")
		default:
			x, ok := v.(extValue)
			if !ok || x.class != n.s || string(x.raw) != string(n.raw) || len(x.vals) != len(n.items) {
				return bad()
			}
			return m.matchItems(n.items, x.vals, path+".ext")
		}
	case kAMF3:
		o := m.amf3
		m.amf3 = true
		s := m.match(n.items[0], v, path+".amf3")
		m.amf3 = o
		return s
	}
	return ""
}

const arrayCollection = "flex.messaging.io.ArrayCollection"

// extValue is what the registered external handler of the harness returns.
type extValue struct {
	class string // the class the handler was registered for
	raw   []byte
	vals  []interface{}
}

func integer(v interface{}) (int64, bool) {
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return r.Int(), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(r.Uint()), true
	}
	return 0, false
}

func (m *matcher) matchItems(items []*node, x []interface{}, path string) string {
	if len(x) != len(items) {
		return fmt.Sprintf("%s: want %d elements, got %d", path, len(items), len(x))
	}
	for i := range items {
		if s := m.match(items[i], x[i], fmt.Sprintf("%s[%d]", path, i)); s != "" {
			return s
		}
	}
	return ""
}

func (m *matcher) matchObj(n *node, x amf.Object, path string) string {
	k := seenKey{n, reflect.ValueOf(x).Pointer()}
	if m.seen[k] {
		return ""
	}
	m.seen[k] = true
	want := map[string]*node{}
	for i, key := range n.keys {
		want[key] = n.vals[i] // a repeated key: the last one counts
	}
	if len(x) != len(want) {
		return fmt.Sprintf("%s: want %d members, got %d", path, len(want), len(x))
	}
	for key, w := range want {
		v, ok := x[key]
		if !ok {
			return fmt.Sprintf("%s: member %s is missing", path, short(key))
		}
		if s := m.match(w, v, path+"."+short(key)); s != "" {
			return s
		}
	}
	return ""
}

func (n *node) brief() string {
	switch n.k {
	case kNull, kUndef, kUnsup:
		return "null"
	case kBool:
		return fmt.Sprint("bool ", n.b)
	case kNum:
		return fmt.Sprint("number ", n.f)
	case kInt:
		return fmt.Sprint("integer u29 ", n.u)
	case kStr, kXML, kXMLDoc:
		return "string " + short(n.s)
	case kDate:
		return fmt.Sprint("date ", n.ms)
	case kObj, kEcma:
		return fmt.Sprintf("object of %d", len(n.keys))
	case kTyped:
		return fmt.Sprintf("typed object %s of %d", short(n.s), len(n.keys))
	case kStrict, kArr3:
		return fmt.Sprintf("array of %d", len(n.items))
	case kBytes:
		return "bytes " + short(n.s)
	case kExt:
		return "external " + n.s
	}
	return fmt.Sprint("kind ", n.k)
}

func brief(v interface{}) string {
	switch x := v.(type) {
	case string:
		return short(x)
	case []byte:
		return short(string(x))
	case amf.Object:
		return fmt.Sprintf("of %d", len(x))
	case amf.Array:
		return fmt.Sprintf("of %d", len(x))
	case amf.TypedObject:
		return fmt.Sprintf("%s of %d", short(x.Type), len(x.Object))
	case amf.EcmaArrayAMF3:
		return "(array)"
	}
	return fmt.Sprint(v)
}

// splitEcma reads the dense and associative parts of a decoded AMF3 array.
func splitEcma(v interface{}) (amf.Array, amf.Object, bool) {
	e, ok := v.(amf.EcmaArrayAMF3)
	if !ok {
		return nil, nil, false
	}
	rv := reflect.ValueOf(&e).Elem()
	var d amf.Array
	var a amf.Object
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Field(i)
		p := unsafe.Pointer(f.UnsafeAddr())
		switch f.Type() {
		case reflect.TypeOf(d):
			d = *(*amf.Array)(p)
		case reflect.TypeOf(a):
			a = *(*amf.Object)(p)
		}
	}
	return d, a, true
}

// equal compares two decoded values (cycles allowed); "" when equal.
func equal(a, b interface{}, seen map[[2]uintptr]bool, path string) string {
	bad := func() string { return fmt.Sprintf("%s: %T %v against %T %v", path, a, brief(a), b, brief(b)) }
	switch x := a.(type) {
	case nil:
		if b != nil {
			return bad()
		}
		return ""
	case float64:
		y, ok := b.(float64)
		if !ok || !sameFloat(x, y) {
			return bad()
		}
		return ""
	case []byte:
		y, ok := b.([]byte)
		if !ok || string(x) != string(y) {
			return bad()
		}
		return ""
	case time.Time:
		y, ok := b.(time.Time)
		if !ok || !x.Equal(y) {
			return bad()
		}
		return ""
	case amf.Array:
		y, ok := b.(amf.Array)
		if !ok || len(x) != len(y) {
			return bad()
		}
		for i := range x {
			if s := equal(x[i], y[i], seen, fmt.Sprintf("%s[%d]", path, i)); s != "" {
				return s
			}
		}
		return ""
	case amf.Object:
		y, ok := b.(amf.Object)
		if !ok || len(x) != len(y) {
			return bad()
		}
		k := [2]uintptr{reflect.ValueOf(x).Pointer(), reflect.ValueOf(y).Pointer()}
		if seen[k] {
			return ""
		}
		seen[k] = true
		for key, xv := range x {
			yv, ok := y[key]
			if !ok {
				return fmt.Sprintf("%s: member %s on one side only", path, short(key))
			}
			if s := equal(xv, yv, seen, path+"."+short(key)); s != "" {
				return s
			}
		}
		return ""
	case amf.TypedObject:
		y, ok := b.(amf.TypedObject)
		if !ok || x.Type != y.Type {
			return bad()
		}
		return equal(x.Object, y.Object, seen, path)
	case amf.EcmaArrayAMF3:
		if _, ok := b.(amf.EcmaArrayAMF3); !ok {
			return bad()
		}
		d1, a1, _ := splitEcma(a)
		d2, a2, _ := splitEcma(b)
		if s := equal(d1, d2, seen, path); s != "" {
			return s
		}
		return equal(a1, a2, seen, path)
	case extValue:
		y, ok := b.(extValue)
		if !ok || x.class != y.class || string(x.raw) != string(y.raw) {
			return bad()
		}
		return equal(amf.Array(x.vals), amf.Array(y.vals), seen, path)
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) || a != b {
		return bad()
	}
	return ""
}

func equalAll(a, b []interface{}) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d values against %d", len(a), len(b))
	}
	for i := range a {
		if s := equal(a[i], b[i], map[[2]uintptr]bool{}, fmt.Sprintf("value %d", i)); s != "" {
			return s
		}
	}
	return ""
}
