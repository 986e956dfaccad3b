package amf

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/moggle-mog/goav/amf"

	"verif/mon"
)

// Metadata generates a metadata object and a judge of its AMF0 encoding.
func Metadata(c *mon.C) (amf.Object, func([]byte) string) {
	g := &goGen{c: c, budget: mon.Pick(c, 3, 10)}
	o, want := g.object(3, kObj)
	if o != nil && c.P(1) { // beyond 64 KiB
		k, s := "long", string(c.Bytes(c.N(3)))+strings.Repeat("metadata ", c.Range(7000, 9000))
		if _, ok := o[k]; !ok {
			o[k] = s
			want.keys, want.vals = append(want.keys, k), append(want.vals, &node{k: kStr, s: s})
		}
	}
	return o, func(b []byte) string {
		d := &dec0{b: b}
		n, err := d.val()
		if err != nil {
			return fmt.Sprintf("metadata object is not well-formed: %v", err)
		}
		if d.off != len(b) {
			return fmt.Sprintf("%d bytes after the metadata object", len(b)-d.off)
		}
		return sameNode(want, n, "metadata")
	}
}

// BadMetadata generates a metadata object that cannot be encoded.
func BadMetadata(c *mon.C) amf.Object {
	g := &goGen{c: c}
	v, _ := g.unencodable()
	return amf.Object{"a": 1, "b": v}
}

// Value0 writes a random AMF0 value with the reference encoder.
func Value0(c *mon.C, str bool) []byte {
	e := newEnc0(c)
	for {
		n := (&wireGen{c: c, plain: true, noSw: true, budget: 8}).value(3)
		if str {
			n = &node{k: kStr, s: genStr(c, false), form: c.N(2)}
		} else if n.k == kStr || n.k == kXML {
			continue
		}
		e.val(n)
		return e.b
	}
}

// Codec is what both protocol versions offer.
type Codec = codec

// NewCodec returns a codec with the harness handler for an externalizable class.
func NewCodec(amf3 bool) Codec { return newDecoder(amf3) }

// GoValue generates an encodable Go value.
func GoValue(c *mon.C, amf3 bool, budget int) interface{} {
	v, _ := (&goGen{c: c, amf3: amf3, budget: budget}).value(3)
	return v
}

// Unencodable generates a value no codec accepts, within containers.
func Unencodable(c *mon.C, amf3 bool) interface{} {
	g := &goGen{c: c, amf3: amf3}
	v, _ := g.unencodable()
	return g.wrap(v)
}

// GoObject generates an encodable object.
func GoObject(c *mon.C, amf3 bool, budget int) amf.Object {
	o, _ := (&goGen{c: c, amf3: amf3, budget: budget}).object(3, kObj)
	return o
}

// Wire writes count values with the reference encoder.
func Wire(c *mon.C, amf3 bool, count, budget int) []byte {
	b, _, _, _ := wireValues(c, amf3, count, budget)
	return b
}

// Mutate damages a copy of an encoding.
func Mutate(c *mon.C, b []byte) []byte { return mutate(c, append([]byte(nil), b...)) }

// Multi tells whether a value holds a map with several keys, whose encoding
// has no fixed order.
func Multi(v interface{}) bool { return multi(reflect.ValueOf(v)) }

func multi(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		return !v.IsNil() && multi(v.Elem())
	case reflect.Map:
		if v.Len() > 1 {
			return true
		}
		for _, k := range v.MapKeys() {
			if multi(v.MapIndex(k)) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() < reflect.Array {
			return false
		}
		for i := 0; i < v.Len(); i++ {
			if multi(v.Index(i)) {
				return true
			}
		}
	case reflect.Struct:
		if o, ok := v.Interface().(amf.TypedObject); ok {
			return multi(reflect.ValueOf(o.Object))
		}
	}
	return false
}
