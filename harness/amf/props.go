package amf

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/moggle-mog/goav/amf"

	"verif/kit"
	"verif/mon"
)

// codec is what both protocol versions offer.
type codec interface {
	amf.Encoder
	amf.Decoder
}

func newCodec(amf3 bool) codec {
	if amf3 {
		return amf.NewEnDecAMF3()
	}
	return amf.NewEnDecAMF0()
}

// Props lists the properties of this area.
func Props() []*mon.Prop {
	return []*mon.Prop{
		{ID: "A01", Level: "exploration", Quick: 120000, Thorough: 6000000, Directed: 48, Run: func(c *mon.C) { roundTrip(c, false) },
			Rule: "random Go values (all encodable kinds, nesting, boundary lengths) in sequences of 1-5, encoded and decoded through the real codec; a case is non-trivial when at least one value was decoded and compared; distinct by structure (kinds, size buckets, nesting)",
			Need: []string{"values compared", "refused", "batch sequences"}},
		{ID: "A03", Level: "exploration", Quick: 200000, Thorough: 6000000, Directed: 48, Run: func(c *mon.C) { roundTrip(c, true) },
			Rule: "as A01, for AMF3 (byte arrays, integers over the 28-bit range, empty keys)",
			Need: []string{"values compared", "refused", "batch sequences"}},
		{ID: "A02", Level: "exploration", Quick: 200000, Thorough: 6000000, Directed: 80, Run: func(c *mon.C) { wire(c, false) },
			Rule: "half of the cases parse what the real encoder wrote with an independent strict AMF0 decoder, half decode what an independent AMF0 encoder wrote (references, cycles, all types) with the real decoder; plus malformed inputs; distinct by structure",
			Need: []string{"encodings parsed", "wire values decoded", "references", "must-fail inputs"}},
		{ID: "A04", Level: "exploration", Quick: 200000, Thorough: 6000000, Directed: 80, Run: func(c *mon.C) { wire(c, true) },
			Rule: "as A02, for AMF3: string, object and trait references, associative arrays, dynamic and externalizable objects",
			Need: []string{"encodings parsed", "wire values decoded", "string-ref", "object-ref", "trait-ref", "external", "must-fail inputs"}},
		{ID: "A05", Level: "exploration", Quick: 60000, Thorough: 4000000, Directed: 40, Run: hostile,
			Rule: "proper prefixes of valid encodings, mutated and random byte strings, hostile lengths and nesting; crash, allocation and invented-value monitors; distinct by structure or by mutation kind and outcome",
			Need: []string{"prefixes refused", "arbitrary inputs", "deep inputs", "nesting accepted"}},
		{ID: "A06", Level: "exploration", Quick: 60000, Thorough: 4000000, Run: readers,
			Rule: "valid, trailing, mutated and random inputs decoded from memory and from readers with chosen delivery patterns and injected faults; distinct by delivery pattern, input class and structure",
			Need: []string{"chunked decodes compared", "faults reported", "consumption checked"}},
		{ID: "A07", Level: "exploration", Quick: 80000, Thorough: 6000000, Directed: 30, Run: metaHeader,
			Rule: "AMF0 payloads starting with a string (all string forms), header add/remove with AMF0, AMF3 and custom decoders; distinct by string form, payload structure and decoder",
			Need: []string{"added", "removed", "idempotent", "refused", "results held"}},
	}
}

// ---- A01, A03: round trip ----

func roundTrip(c *mon.C, amf3 bool) {
	d, directed := c.Directed()
	g := &goGen{c: c, amf3: amf3, budget: mon.Pick(c, 5, 20, 60), big: c.P(30)}
	if !directed && c.P(12) {
		v, what := g.unencodable()
		v = g.wrap(v)
		var out bytes.Buffer
		enc := newCodec(amf3)
		n, err := enc.Encode(&out, v)
		if err == nil {
			c.Fail("a value that cannot be carried (%s) was encoded without an error (%d bytes: %s)", what, n, mon.Hex(out.Bytes()))
		}
		if err := enc.EncodeBatch(&out, 1, v); err == nil {
			c.Fail("EncodeBatch accepted a value that cannot be carried (%s)", what)
		}
		c.Event("refused")
		c.Shape("refused", what, amf3)
		// the codec is still usable
		g.budget = 5
	}
	count := mon.Pick(c, 1, 1, 2, 3, 5)
	if c.P(5) {
		count = c.Range(8, 40)
	}
	long := !directed && c.N(1500) == 0
	if long { // more values than any small counter holds
		count, g.budget, g.big = c.Range(250, 1500), 500, false
		c.Event("long sequences")
	}
	var vals []interface{}
	var want []*node
	if directed {
		vals, want = directedValues(c, d, amf3)
		count = len(vals)
	} else {
		for i := 0; i < count; i++ {
			v, n := g.value(mon.Pick(c, 0, 1, 3, 6))
			vals, want = append(vals, v), append(want, n)
		}
	}
	enc := newCodec(amf3)
	var out bytes.Buffer
	ends := make([]int, 0, count)
	for i, v := range vals {
		before := out.Len()
		n, err := enc.Encode(&out, v)
		c.Note("Encode(%T) = %d, %v", v, n, err)
		if err != nil {
			c.Fail("value %d (%s) refused: %v", i, want[i].brief(), err)
		}
		if n != out.Len()-before {
			c.Fail("value %d (%s): Encode reports %d bytes, wrote %d", i, want[i].brief(), n, out.Len()-before)
		}
		ends = append(ends, out.Len())
	}
	c.EventN("bytes encoded", out.Len())
	if long || c.P(30) { // encoding again gives the same lengths, in one batch
		var out2 bytes.Buffer
		if err := enc.EncodeBatch(&out2, vals...); err != nil {
			c.Fail("EncodeBatch: %v", err)
		}
		if out2.Len() != out.Len() {
			c.Fail("EncodeBatch wrote %d bytes, the same values one by one %d", out2.Len(), out.Len())
		}
		got, err := newCodec(amf3).DecodeBatch(&out2)
		if err != nil {
			c.Fail("DecodeBatch: %v", err)
		}
		if len(got) != count {
			c.Fail("DecodeBatch returned %d values of %d", len(got), count)
		}
		m := newMatcher(amf3)
		for i := range got {
			if s := m.match(want[i], got[i], fmt.Sprintf("batch value %d", i)); s != "" {
				c.Fail("%s", s)
			}
		}
		c.Event("batch sequences")
	}
	trail := c.Bytes(c.N(20))
	all := append(append([]byte(nil), out.Bytes()...), trail...)
	r := bytes.NewReader(all)
	dec := newCodec(amf3)
	if c.P(30) {
		dec = enc
	}
	m := newMatcher(amf3)
	for i := range vals {
		v, err := dec.Decode(r)
		if err != nil {
			c.Fail("value %d (%s) does not decode: %v (encoding %s)", i, want[i].brief(), err, mon.Hex(all[max(0, ends[i]-40):ends[i]]))
		}
		if s := m.match(want[i], v, fmt.Sprintf("value %d", i)); s != "" {
			c.Fail("%s", s)
		}
		if got := len(all) - r.Len(); got != ends[i] {
			c.Fail("value %d (%s): decoder stands at byte %d, the value ends at %d", i, want[i].brief(), got, ends[i])
		}
		c.Event("values compared")
		c.Shape(amf3, shapeOf(want[i]))
	}
	c.Sample("%d values, %d bytes: %s -> %s", count, out.Len(), want[0].brief(), mon.Hex(out.Bytes()))
}

// directedValues lists boundary values.
func directedValues(c *mon.C, d int, amf3 bool) ([]interface{}, []*node) {
	lens := []int{0, 1, 63, 64, 127, 128, 8191, 8192, 65534, 65535, 65536, 65537, 1048575, 1048576, 2097152, 16777215, 16777216}
	if d < len(lens) {
		s := genStrN(c, lens[d])
		vals, want := []interface{}{s, amf.Array{s, 1.5}, nil}, []*node{{k: kStr, s: s},
			{k: arrKind(amf3), items: []*node{{k: kStr, s: s}, {k: kNum, f: 1.5}}}, {k: kNull}}
		if amf3 {
			vals, want = append(vals, []byte(s), true), append(want, &node{k: kBytes, s: s}, &node{k: kBool, b: true})
		}
		return vals, want
	}
	d -= len(lens)
	counts := []int{0, 1, 7, 8, 63, 64, 127, 128, 1023, 1024, 8191, 8192, 20000, 65535, 65536, 70000}
	if d < len(counts) {
		var a amf.Array
		n := &node{k: arrKind(amf3)}
		o := amf.Object{}
		on := &node{k: kObj}
		for i := 0; i < counts[d]; i++ {
			a = append(a, i%3 == 0)
			n.items = append(n.items, &node{k: kBool, b: i%3 == 0})
			k := fmt.Sprint("k", i)
			o[k] = k
			on.keys, on.vals = append(on.keys, k), append(on.vals, &node{k: kStr, s: k})
		}
		return []interface{}{a, o, true}, []*node{n, on, {k: kBool, b: true}}
	}
	d -= len(counts)
	// nested 400 deep, alternating containers
	var v interface{} = "leaf"
	n := &node{k: kStr, s: "leaf"}
	for i := 0; i < 400; i++ {
		switch (i + d) % 3 {
		case 0:
			v = amf.Object{"k": v}
			n = &node{k: kObj, keys: []string{"k"}, vals: []*node{n}}
		case 1:
			v = amf.Array{v}
			n = &node{k: arrKind(amf3), items: []*node{n}}
		case 2:
			v = amf.TypedObject{Type: "t", Object: amf.Object{"k": v}}
			n = &node{k: kTyped, s: "t", keys: []string{"k"}, vals: []*node{n}}
		}
	}
	return []interface{}{v}, []*node{n}
}

func arrKind(amf3 bool) kind {
	if amf3 {
		return kArr3
	}
	return kStrict
}

// ---- A02, A04: wire format ----

// sameNode compares what an encoder was given with what its output says.
func sameNode(want, got *node, path string) string {
	bad := func() string { return fmt.Sprintf("%s: wrote %s for %s", path, got.brief(), want.brief()) }
	wk, gk := want.k, got.k
	if wk == kTyped && gk == kObj && want.s == "" {
		wk = kObj // AMF3: the anonymous class
	}
	if wk == kInt || wk == kNum {
		num := func(n *node) (float64, bool) {
			if n.k == kNum {
				return n.f, true
			}
			if n.k != kInt {
				return 0, false
			}
			v := int64(n.u)
			if v >= 1<<28 {
				v -= 1 << 29
			}
			return float64(v), true
		}
		a, _ := num(want)
		b, ok := num(got)
		if !ok || !sameFloat(a, b) {
			return bad()
		}
		return ""
	}
	if wk != gk {
		return bad()
	}
	switch wk {
	case kBool:
		if want.b != got.b {
			return bad()
		}
	case kStr, kXML, kXMLDoc, kBytes:
		if want.s != got.s {
			return bad()
		}
	case kDate:
		if want.ms != got.ms || got.form != 0 {
			return bad()
		}
	case kTyped, kObj, kEcma, kArr3, kStrict:
		if wk == kTyped && want.s != got.s {
			return bad()
		}
		if len(want.keys) != len(got.keys) || len(want.items) != len(got.items) {
			return bad()
		}
		idx := map[string]*node{}
		for i, k := range got.keys {
			if idx[k] != nil {
				return path + ": key " + short(k) + " twice"
			}
			idx[k] = got.vals[i]
		}
		for i, k := range want.keys {
			v := idx[k]
			if v == nil {
				return path + ": key " + short(k) + " missing"
			}
			if s := sameNode(want.vals[i], v, path+"."+short(k)); s != "" {
				return s
			}
		}
		for i := range want.items {
			if s := sameNode(want.items[i], got.items[i], fmt.Sprintf("%s[%d]", path, i)); s != "" {
				return s
			}
		}
	case kAMF3:
		return sameNode(want.items[0], got.items[0], path+".amf3")
	}
	return ""
}

func wire(c *mon.C, amf3 bool) {
	if d, ok := c.Directed(); ok {
		wireDirected(c, d, amf3)
		return
	}
	switch k := c.N(20); {
	case k < 8:
		wireEncode(c, amf3)
	case k < 17:
		wireDecode(c, amf3)
	default:
		wireBad(c, amf3)
	}
}

func parse0(c *mon.C, b []byte, d *dec0) *node {
	n, err := d.val()
	if err != nil {
		c.Fail("the encoder's output is not well-formed AMF0: %v at byte %d of %s", err, d.off, mon.Hex(b))
	}
	return n
}

func wireEncode(c *mon.C, amf3 bool) {
	g := &goGen{c: c, amf3: amf3, budget: mon.Pick(c, 5, 20, 60), big: c.P(20)}
	var out bytes.Buffer
	var want []*node
	e0 := amf.NewEnDecAMF0()
	e3 := amf.NewEnDecAMF3()
	for i := mon.Pick(c, c.Range(1, 5), c.Range(1, 5), c.Range(1, 5), c.Range(1, 5), c.Steps(1, 30)); i > 0; i-- {
		before := out.Len()
		var n int
		var err error
		var w *node
		op := "Encode"
		if amf3 {
			var v interface{}
			v, w = g.value(4)
			n, err = e3.Encode(&out, v)
		} else {
			switch c.N(9) {
			case 0:
				op = "EncodeEcmaArray"
				var o amf.Object
				o, w = g.object(4, kEcma)
				n, err = e0.EncodeEcmaArray(&out, o)
			case 1:
				op = "EncodeXmlDocument"
				w = &node{k: kXML, s: genStr(c, true)}
				n, err = e0.EncodeXmlDocument(&out, w.s)
			case 2:
				op = "EncodeUndefined"
				w = &node{k: kUndef}
				n, err = e0.EncodeUndefined(&out)
			case 3:
				op = "EncodeUnsupported"
				w = &node{k: kUnsup}
				n, err = e0.EncodeUnsupported(&out)
			case 4:
				op = "EncodeWithAMF3"
				g3 := &goGen{c: c, amf3: true, budget: 10, big: c.N(40) == 0}
				v, w3 := g3.value(3)
				w = &node{k: kAMF3, items: []*node{w3}}
				n, err = e0.EncodeWithAMF3(&out, v)
			case 5:
				op = "EncodeReference"
				ref := uint16(c.Uint32() >> c.N(16))
				n, err = e0.EncodeReference(&out, ref)
				p := out.Bytes()[before:]
				if err != nil || n != 3 || !bytes.Equal(p, []byte{7, byte(ref >> 8), byte(ref)}) {
					c.Fail("EncodeReference(%d) = %d, %v, wrote %x", ref, n, err, p)
				}
				out.Truncate(before)
				c.Event("references")
				continue
			default:
				var v interface{}
				v, w = g.value(4)
				n, err = e0.Encode(&out, v)
			}
		}
		c.Note("%s(%s) = %d, %v", op, w.brief(), n, err)
		if err != nil {
			c.Fail("%s of %s: %v", op, w.brief(), err)
		}
		if n != out.Len()-before {
			c.Fail("%s of %s reports %d bytes, wrote %d", op, w.brief(), n, out.Len()-before)
		}
		want = append(want, w)
	}
	b := out.Bytes()
	d0 := &dec0{b: b}
	d3 := &dec3{b: b}
	for i, w := range want {
		var got *node
		if amf3 {
			var err error
			got, err = d3.val()
			if err != nil {
				c.Fail("the encoder's output is not well-formed AMF3: %v at byte %d of %s", err, d3.off, mon.Hex(b))
			}
		} else {
			got = parse0(c, b, d0)
		}
		if s := sameNode(w, got, fmt.Sprintf("value %d", i)); s != "" {
			c.Fail("%s; bytes %s", s, mon.Hex(b))
		}
		c.Event("encodings parsed")
		c.Shape("enc", amf3, shapeOf(w))
	}
	if off := d0.off + d3.off; off != len(b) {
		c.Fail("%d bytes written, the values take %d", len(b), off)
	}
}

// newDecoder returns a decoder with the harness handler registered.
func newDecoder(amf3 bool) codec {
	h := func(class string, ed *amf.EnDecAMF3, r io.Reader) (interface{}, error) {
		one := func() (int, error) {
			var b [1]byte
			_, err := io.ReadFull(r, b[:])
			return int(b[0]), err
		}
		n, err := one()
		if err != nil {
			return nil, err
		}
		x := extValue{class: class, raw: make([]byte, n)}
		if _, err = io.ReadFull(r, x.raw); err != nil {
			return nil, err
		}
		if n, err = one(); err != nil {
			return nil, err
		}
		for ; n > 0; n-- {
			v, err := ed.Decode(r)
			if err != nil {
				return nil, err
			}
			x.vals = append(x.vals, v)
		}
		return x, nil
	}
	if amf3 {
		d := amf.NewEnDecAMF3()
		for _, class := range handlerClasses {
			d.RegisterExternalHandler(class, func(ed *amf.EnDecAMF3, r io.Reader) (interface{}, error) { return h(class, ed, r) })
		}
		return d
	}
	d := amf.NewEnDecAMF0()
	for _, class := range handlerClasses {
		d.RegisterExternalHandler(class, func(ed *amf.EnDecAMF3, r io.Reader) (interface{}, error) { return h(class, ed, r) })
	}
	return d
}

// wireValues writes a sequence of values with the reference encoder.
func wireValues(c *mon.C, amf3 bool, count int, budget int) (b []byte, want []*node, ends []int, used map[string]int) {
	g := &wireGen{c: c, amf3: amf3, budget: budget}
	used = map[string]int{}
	e0, e3 := newEnc0(c), newEnc3(c)
	for i := 0; i < count; i++ {
		if g.budget < 5 {
			g.budget = 5
		}
		n := g.value(mon.Pick(c, 0, 2, 4, 6))
		want = append(want, n)
		if amf3 {
			e3.val(n)
			ends = append(ends, len(e3.b))
		} else {
			e0.val(n)
			ends = append(ends, len(e0.b))
		}
	}
	if amf3 {
		return e3.b, want, ends, e3.used
	}
	used["references"] = e0.used
	return e0.b, want, ends, used
}

func wireDecode(c *mon.C, amf3 bool) {
	count := mon.Pick(c, 1, 1, 1, 2, 4)
	if c.P(5) {
		count = c.Range(8, 40)
	}
	long := c.N(1500) == 0
	if long { // references over a long distance
		count = c.Range(250, 1500)
		c.Event("long sequences")
	}
	b, want, ends, used := wireValues(c, amf3, count, mon.Pick(c, 6, 20, 50, 120))
	c.Note("input %s", mon.Hex(b))
	for k, v := range used {
		c.EventN(k, v)
	}
	m := newMatcher(amf3)
	if long || c.P(30) {
		got, err := newDecoder(amf3).DecodeBatch(bytes.NewReader(b))
		if err != nil {
			c.Fail("well-formed batch refused: %v; %x", err, b)
		}
		if len(got) != count {
			c.Fail("batch of %d values gave %d", count, len(got))
		}
		for i := range got {
			if s := m.match(want[i], got[i], fmt.Sprintf("batch value %d", i)); s != "" {
				c.Fail("%s; input %s", s, mon.Hex(b))
			}
		}
	}
	trail := append(append([]byte(nil), b...), c.Bytes(c.N(9))...)
	r := bytes.NewReader(trail)
	dec := newDecoder(amf3)
	for i := range want {
		v, err := dec.Decode(r)
		if err != nil {
			c.Fail("well-formed value %d (%s) refused: %v; %s", i, want[i].brief(), err, mon.Hex(b))
		}
		if s := m.match(want[i], v, fmt.Sprintf("value %d", i)); s != "" {
			c.Fail("%s; input %s", s, mon.Hex(b))
		}
		if off := len(trail) - r.Len(); off != ends[i] {
			c.Fail("value %d (%s): decoder stands at %d, value ends at %d; %s", i, want[i].brief(), off, ends[i], mon.Hex(b))
		}
		c.Event("wire values decoded")
		c.Shape("dec", amf3, shapeOf(want[i]), used)
	}
	if m.neg > 0 && amf3 {
		c.Known("K8", "AMF3 integer decoded without its sign")
	}
	c.Sample("decoded %d values from %s", count, mon.Hex(b))
}

// wireBad checks inputs that must be refused.
func wireBad(c *mon.C, amf3 bool) {
	// a valid prefix of values, then something malformed, alone or inside containers
	count := c.N(3)
	var bad []byte
	var what string
	pre, _, ends, _ := []byte(nil), []*node(nil), []int(nil), 0
	if amf3 {
		e := newEnc3(c)
		e.noRefs = true
		for i := 0; i < count; i++ {
			e.val((&wireGen{c: c, amf3: true, plain: true, budget: 8}).value(3))
			ends = append(ends, len(e.b))
		}
		depth := c.N(3)
		for i := 0; i < depth; i++ {
			switch c.N(3) {
			case 0: // dense array of one
				e.nobj++
				e.b = append(e.b, 9, 3, 1)
			case 1: // anonymous object, one sealed member
				e.nobj++
				e.ntrait++
				e.b = append(e.b, 10, 0x13, 1, 1)
			case 2: // array collection
				e.nobj++
				e.ntrait++
				e.nstr++
				e.b = append(e.b, 10, 7)
				e.u29(len(arrayCollection)<<1 | 1)
				e.b = append(e.b, arrayCollection...)
			}
		}
		far := func(n int) int { return n + mon.Pick(c, 0, 0, 1, 5, 1000, 1<<20) }
		switch c.N(7) {
		case 0:
			what = "string reference"
			e.b = append(e.b, 6)
			e.u29(far(e.nstr) << 1)
		case 1:
			what = "object reference"
			e.b = append(e.b, mon.Pick(c, byte(7), 8, 9, 10, 11, 12))
			e.u29(far(e.nobj) << 1)
		case 2:
			what = "trait reference"
			e.b = append(e.b, 10)
			e.u29(far(e.ntrait)<<2 | 1)
		case 3:
			what = "unsupported type"
			e.b = append(e.b, mon.Pick(c, byte(13), 14, 15, 16, 17), 1, 0)
		case 4:
			what = "unknown marker"
			e.b = append(e.b, byte(c.Range(18, 255)))
		case 5:
			what = "external class without handler"
			e.b = append(e.b, 10, 7)
			e.str(mon.Pick(c, "com.example.None", "DSX", "dsa", "x"))
		case 6:
			what = "key string reference"
			e.b = append(e.b, 9, 1)
			e.u29(far(e.nstr) << 1)
		}
		e.b = append(e.b, c.Bytes(c.N(40))...)
		bad, pre = e.b, nil
		c.Shape(what, depth, count)
	} else {
		e := newEnc0(c)
		for i := 0; i < count; i++ {
			e.val((&wireGen{c: c, plain: true, budget: 8, noExt: true}).value(3))
			ends = append(ends, len(e.b))
		}
		depth := c.N(3)
		for i := 0; i < depth; i++ {
			e.n++
			switch c.N(4) {
			case 0:
				e.b = append(e.b, 10, 0, 0, 0, 2)
			case 1:
				e.b = append(e.b, 3, 0, 1, 'a')
			case 2:
				e.b = append(e.b, 8, 0, 0, 0, 1, 0, 1, 'a')
			case 3:
				e.b = append(e.b, 16, 0, 1, 'T', 0, 1, 'a')
			}
		}
		switch c.N(4) {
		case 0:
			what = "reserved type"
			e.b = append(e.b, mon.Pick(c, byte(4), 14))
		case 1:
			what = "reference"
			e.b = append(e.b, 7)
			e.u16(min(65535, e.n+mon.Pick(c, 0, 0, 1, 7, 60000)))
		case 2:
			what = "unknown marker"
			e.b = append(e.b, byte(c.Range(18, 255)))
		case 3:
			what = "object end marker as a value"
			e.b = append(e.b, 9)
		}
		e.b = append(e.b, c.Bytes(c.N(40))...)
		bad = e.b
		c.Shape(what, depth, count)
	}
	_ = pre
	c.Note("input %s", mon.Hex(bad))
	dec := newDecoder(amf3)
	r := bytes.NewReader(bad)
	for i := 0; i < count; i++ {
		if _, err := dec.Decode(r); err != nil {
			c.Fail("well-formed value %d before the malformed one refused: %v; %s", i, err, mon.Hex(bad))
		}
	}
	v, err := dec.Decode(r)
	if err == nil {
		c.Fail("malformed input (%s) decoded to %T %v; %s", what, v, brief(v), mon.Hex(bad))
	}
	if _, err := newDecoder(amf3).DecodeBatch(bytes.NewReader(bad)); err == nil {
		c.Fail("malformed batch (%s) accepted; %s", what, mon.Hex(bad))
	}
	c.Event("must-fail inputs")
}

func wireDirected(c *mon.C, d int, amf3 bool) {
	if amf3 {
		ints := []uint32{0, 1, 127, 128, 255, 16383, 16384, 65535, 2097151, 2097152, 4194303, 1<<28 - 1, 1 << 28, 1<<28 + 5, 1<<29 - 1, 1<<29 - 268435456}
		if d < len(ints) {
			e := newEnc3(c)
			e.val(&node{k: kInt, u: ints[d]})
			v, err := newDecoder(true).Decode(bytes.NewReader(e.b))
			if err != nil {
				c.Fail("integer %d: %v", ints[d], err)
			}
			m := newMatcher(true)
			if s := m.match(&node{k: kInt, u: ints[d]}, v, "int"); s != "" {
				c.Fail("%s", s)
			}
			if m.neg > 0 {
				c.Known("K8", "integer U29 %d decoded as %v", ints[d], v)
			}
			c.Shape("int", d)
			c.Event("wire values decoded")
			return
		}
		if d == 20 {
			// a string whose length does not fit the 28 bits of a U29 string header
			n, err := amf.NewEnDecAMF3().Encode(io.Discard, string(make([]byte, 1<<28)))
			if err == nil {
				c.Fail("a string of 2^28 bytes was encoded (%d bytes): its length does not fit U29", n)
			}
			c.Event("must-fail inputs")
			return
		}
	}
	if d >= 74 {
		wideObject(c, d-74, amf3)
		return
	}
	if d >= 66 {
		wideTable(c, d-66, amf3)
		return
	}
	if d >= 60 && !amf3 { // associative arrays of many members
		o, w := amf.Object{}, &node{k: kEcma}
		for i := []int{255, 256, 65535, 65536, 70000, 140000}[d-60]; i > 0; i-- {
			k := fmt.Sprint("k", i)
			o[k] = i%2 == 0
			w.keys, w.vals = append(w.keys, k), append(w.vals, &node{k: kBool, b: i%2 == 0})
		}
		var out bytes.Buffer
		n, err := amf.NewEnDecAMF0().EncodeEcmaArray(&out, o)
		if err != nil || n != out.Len() {
			c.Fail("EncodeEcmaArray of %d members: %d, %v", len(o), n, err)
		}
		d0 := &dec0{b: out.Bytes()}
		got := parse0(c, out.Bytes(), d0)
		if d0.off != out.Len() {
			c.Fail("EncodeEcmaArray of %d members wrote %d bytes too many", len(o), out.Len()-d0.off)
		}
		if s := sameNode(w, got, "ECMA array"); s != "" {
			c.Fail("%s", s)
		}
		c.Event("encodings parsed")
		c.Shape("ecma", d)
		return
	}
	// many distinct strings/objects/traits so that reference indexes need 2 and 3 bytes
	n := []int{70, 130, 300, 8200, 9000}[d%5]
	root := &node{k: arrKind(amf3)}
	for i := 0; i < n; i++ {
		o := &node{k: kObj, keys: []string{fmt.Sprint("k", i)}, vals: []*node{{k: kStr, s: fmt.Sprint("v", i)}}, sealed: 1}
		if !amf3 {
			o.sealed = 0
		}
		root.items = append(root.items, o)
	}
	for i := 0; i < 40; i++ {
		root.items = append(root.items, root.items[mon.Pick(c, n-1, 0, n-2, c.N(n))])
		root.items = append(root.items, &node{k: kObj, keys: []string{fmt.Sprint("k", n-1-i%5)}, vals: []*node{{k: kStr, s: fmt.Sprint("v", c.N(n))}}, sealed: root.items[0].sealed})
	}
	var b []byte
	if amf3 {
		e := newEnc3(c)
		e.val(root)
		b = e.b
		for k, v := range e.used {
			c.EventN(k, v)
		}
	} else {
		e := newEnc0(c)
		e.val(root)
		b = e.b
		c.EventN("references", e.used)
	}
	v, err := newDecoder(amf3).Decode(bytes.NewReader(b))
	if err != nil {
		c.Fail("table of %d entries: %v", n, err)
	}
	if s := newMatcher(amf3).match(root, v, "table"); s != "" {
		c.Fail("%s", s)
	}
	c.Event("wire values decoded")
	c.Shape("table", n, d)
}

// wideObject decodes objects of many members, also a second time by their traits.
func wideObject(c *mon.C, d int, amf3 bool) {
	n := []int{127, 128, 255, 256, 5000, 70000}[d]
	root := &node{k: arrKind(amf3)}
	for i := 0; i < 6; i++ {
		o := &node{k: kObj, s: ""}
		if i%3 == 2 {
			o.k, o.s = kTyped, "T"
		}
		for j := 0; j < n; j++ {
			o.keys, o.vals = append(o.keys, fmt.Sprint("k", j)), append(o.vals, &node{k: kNum, f: float64(i + j)})
		}
		if amf3 {
			o.k = kObj
			o.sealed = []int{n, n, n, n / 2, 0, 0}[i]
			o.dynamic = o.sealed < n
		}
		root.items = append(root.items, o)
	}
	if amf3 { // an array that is both associative and dense
		o := &node{k: kArr3}
		for j := 0; j < n; j++ {
			o.keys, o.vals = append(o.keys, fmt.Sprint("k", j)), append(o.vals, &node{k: kNum, f: float64(j)})
			o.items = append(o.items, &node{k: kNum, f: float64(-j)})
		}
		root.items = append(root.items, o)
	}
	var b []byte
	if amf3 {
		e := newEnc3(c)
		e.val(root)
		b = e.b
	} else {
		e := newEnc0(c)
		e.val(root)
		b = e.b
	}
	v, err := newDecoder(amf3).Decode(bytes.NewReader(b))
	if err != nil {
		c.Fail("objects of %d members: %v", n, err)
	}
	if s := newMatcher(amf3).match(root, v, "objects"); s != "" {
		c.Fail("%s", s)
	}
	c.Event("wire values decoded")
	c.Shape("wide object", n)
}

// wideTable decodes a value with so many complex values of every kind that the
// reference indexes take all the bytes they can have.
func wideTable(c *mon.C, d int, amf3 bool) {
	n := []int{100, 5000, 17000, 33000, 40000, 65600, 140000, 1100000}[d]
	root := &node{k: arrKind(amf3)}
	if !amf3 {
		n = min(n, 65535) // the indexes have 16 bits, the array itself is 0
	}
	leaf := func(i int) *node { return &node{k: kNum, f: float64(i)} }
	key := "k"
	for i := 0; i < n; i++ {
		v := &node{k: kDate, ms: float64(i) * 1000}
		k := (i + d) % 6
		if n > 1000000 && i%64 > 0 { // bytes, dates and strings
			k = 2 + i%3
		}
		switch k {
		case 0:
			v = &node{k: kObj, keys: []string{key}, vals: []*node{leaf(i)}}
			if amf3 {
				v.dynamic = true
			}
		case 1:
			v = &node{k: arrKind(amf3), items: []*node{leaf(i)}}
		case 2:
			v = &node{k: kTyped, s: "T", keys: []string{key}, vals: []*node{leaf(i)}}
			if amf3 {
				v = &node{k: kBytes, s: fmt.Sprint(i)}
			}
		case 3:
			v = &node{k: kEcma, keys: []string{key}, vals: []*node{leaf(i)}}
			if amf3 {
				v = &node{k: kStr, s: fmt.Sprint("s", i)}
			}
		case 4:
			if !amf3 {
				v = &node{k: kStrict}
			}
		default:
			v = &node{k: kObj}
			if amf3 {
				v = &node{k: kXML, s: fmt.Sprint("x", i)}
			}
		}
		root.items = append(root.items, v)
	}
	for i := 0; i < 400; i++ {
		j := c.N(n)
		if c.P(50) {
			j = max(0, n-1-c.N(40))
		} else if c.P(50) {
			j = min(n-1, 1<<c.Range(5, 21)+c.Range(-20, 20))
		}
		root.items = append(root.items, root.items[j])
		if s := root.items[j]; s.k == kStr {
			root.items[len(root.items)-1] = &node{k: kStr, s: s.s}
		}
	}
	var b []byte
	if amf3 {
		e := newEnc3(c)
		e.val(root)
		b = e.b
		for k, v := range e.used {
			c.EventN(k, v)
		}
	} else {
		e := newEnc0(c)
		e.val(root)
		b = e.b
		c.EventN("references", e.used)
	}
	v, err := newDecoder(amf3).Decode(bytes.NewReader(b))
	if err != nil {
		c.Fail("table of %d entries of all kinds: %v", n, err)
	}
	if s := newMatcher(amf3).match(root, v, "table"); s != "" {
		c.Fail("%s", s)
	}
	c.Event("wire values decoded")
	c.Shape("wide table", n)
}

// ---- A07: metadata header ----

type fnDecoder func(r io.Reader) (interface{}, error)

func (f fnDecoder) Decode(r io.Reader) (interface{}, error)        { return f(r) }
func (f fnDecoder) DecodeBatch(r io.Reader) ([]interface{}, error) { return nil, nil }

func metaHeader(c *mon.C) {
	// results are held as returned: later calls must not change them
	var held, copies [][]byte
	metaHeaderCase(c, func(b []byte) []byte {
		held, copies = append(held, b), append(copies, append([]byte(nil), b...))
		return copies[len(copies)-1]
	})
	_, _ = amf.AddMetaHeader([]byte{2, 0, 3, 'x', 'y', 'z'}, amf.NewEnDecAMF0())
	for i := range held {
		if !bytes.Equal(held[i], copies[i]) {
			c.Fail("a later call changed result %d: %s", i, mon.Diff(held[i], copies[i]))
		}
	}
	c.EventN("results held", len(held))
}

func metaHeaderCase(c *mon.C, hold func([]byte) []byte) {
	const name = "@setDataFrame"
	header := append([]byte{2, 0, byte(len(name))}, name...)
	longHeader := append([]byte{12, 0, 0, 0, byte(len(name))}, name...)
	rest := func() []byte {
		switch c.N(4) {
		case 0:
			return c.Bytes(c.N(80))
		case 1:
			return nil
		}
		e := newEnc0(c)
		e.val((&wireGen{c: c, plain: true, budget: 12}).value(4))
		return e.b
	}
	str := func() (string, []byte) {
		s := mon.Pick(c, "onMetaData", "", "@setDataFram", "@setDataFrame ", "@setDataframe", "setDataFrame", "@setDataFrame\x00", genStr(c, true))
		if s == name {
			s += "x"
		}
		e := newEnc0(c)
		e.val(&node{k: kStr, s: s, form: mon.Pick(c, 0, 0, 1)})
		return s, e.b
	}
	dec := func() amf.Decoder { return amf.NewEnDecAMF0() }
	add := func(p []byte) []byte {
		g := kit.Guard(p)
		out, err := amf.AddMetaHeader(g.S, dec())
		if err != nil {
			c.Fail("AddMetaHeader(%s): %v", mon.Hex(p), err)
		}
		if s := g.Check(); s != "" {
			c.Fail("AddMetaHeader changed its input: %s", s)
		}
		return hold(out)
	}
	del := func(p []byte, d amf.Decoder) []byte {
		g := kit.Guard(p)
		out, err := amf.DelMetaHeader(g.S, d)
		if err != nil {
			c.Fail("DelMetaHeader(%s): %v", mon.Hex(p), err)
		}
		if s := g.Check(); s != "" {
			c.Fail("DelMetaHeader changed its input: %s", s)
		}
		return hold(out)
	}
	is := func(what string, got, want []byte) {
		if !bytes.Equal(got, want) {
			c.Fail("%s: %s", what, mon.Diff(got, want))
		}
	}
	mode := c.N(7)
	switch mode {
	case 0, 1: // payload without header
		s, p := str()
		p = append(p, rest()...)
		c.Note("payload %s", mon.Hex(p))
		want := append(append([]byte(nil), header...), p...)
		a := add(p)
		is("add", a, want)
		is("add twice", add(a), want)
		d := del(a, dec())
		is("remove after add", d, p)
		is("remove twice", del(d, dec()), p)
		is("remove without header", del(p, dec()), p)
		is("add after remove", add(d), want)
		c.Event("added")
		c.Event("removed")
		c.Event("idempotent")
		c.Shape(mode, bucket(len(s)), p[0], bucket(len(p)))
		c.Sample("payload %s: header added and removed", mon.Hex(p))
	case 2: // header present, short form or long form
		h := mon.Pick(c, header, longHeader)
		s, p := str()
		p = append(p, rest()...)
		full := append(append([]byte(nil), h...), p...)
		c.Note("payload %s", mon.Hex(full))
		is("add with header present", add(full), full)
		is("remove", del(full, dec()), p)
		c.Event("removed")
		c.Event("idempotent")
		c.Shape(mode, h[0], bucket(len(s)), p[0], bucket(len(p)))
	case 3: // header only, or header followed by arbitrary bytes
		h := mon.Pick(c, header, longHeader)
		p := c.Bytes(c.N(60))
		full := append(append([]byte(nil), h...), p...)
		is("add with header present", add(full), full)
		is("remove", del(full, dec()), p)
		c.Event("removed")
		c.Shape(mode, h[0], bucket(len(p)))
	case 4: // AMF3 header: literal, or a reference into a primed string table
		p := c.Bytes(c.N(60))
		d := amf.NewEnDecAMF3()
		h := append([]byte{6, byte(len(name)<<1 | 1)}, name...)
		kindName := "literal"
		if c.P(50) {
			// other strings first, so that the reference index varies
			pre := c.N(5)
			var b []byte
			for i := 0; i < pre; i++ {
				b = append(b, 6, 5, 'a', byte('a'+i))
			}
			b = append(b, h...)
			if vs, err := d.DecodeBatch(bytes.NewReader(b)); err != nil || len(vs) != pre+1 {
				c.Fail("priming decode: %d values, %v", len(vs), err)
			}
			h = []byte{6, byte(pre << 1)}
			kindName = "reference"
		}
		is("remove AMF3 header", del(append(append([]byte(nil), h...), p...), d), p)
		c.Event("removed")
		c.Shape(mode, kindName, len(h), bucket(len(p)))
	case 5: // custom decoder with its own header form
		k := c.Range(1, 40)
		p := c.Bytes(c.N(60))
		full := append(c.Bytes(k), p...)
		yes := c.P(70)
		d := fnDecoder(func(r io.Reader) (interface{}, error) {
			if _, err := io.ReadFull(r, make([]byte, k)); err != nil {
				return nil, err
			}
			if yes {
				return name, nil
			}
			return "other", nil
		})
		want := full
		if yes {
			want = p
		}
		is("remove with custom decoder", del(full, d), want)
		c.Event("removed")
		c.Shape(mode, yes, bucket(k), bucket(len(p)))
	case 6: // payload not starting with a string, or truncated
		e := newEnc0(c)
		var p []byte
		what := mon.Pick(c, "value", "truncated", "empty", "array of string")
		switch what {
		case "value":
			for {
				n := (&wireGen{c: c, plain: true, budget: 8, noSw: true}).value(3)
				if n.k != kStr && n.k != kXML {
					e.val(n)
					break
				}
			}
			p = e.b
		case "truncated":
			_, s := str()
			p = s[:c.N(len(s))]
		case "array of string":
			p = append([]byte{10, 0, 0, 0, 1}, header...)
		}
		c.Note("payload %s", mon.Hex(p))
		if out, err := amf.AddMetaHeader(p, dec()); err == nil {
			c.Fail("AddMetaHeader accepted a payload that does not start with a string (%s): %s", what, mon.Hex(out))
		}
		if out, err := amf.DelMetaHeader(p, dec()); err == nil {
			c.Fail("DelMetaHeader accepted a payload that does not start with a string (%s): %s", what, mon.Hex(out))
		}
		c.Event("refused")
		c.Shape(mode, what, len(p))
	}
}

// ---- A05: hostile bytes ----

func allocBound(n int) uint64 { return 1<<20 + 1500*uint64(n) }

// tryDecode decodes anything and checks the allocation bound.
func tryDecode(c *mon.C, amf3, batch bool, b []byte, d codec) (vals []interface{}, err error) {
	used := kit.Alloc(func() {
		if batch {
			vals, err = d.DecodeBatch(bytes.NewReader(b))
			return
		}
		var v interface{}
		v, err = d.Decode(bytes.NewReader(b))
		if err == nil {
			vals = []interface{}{v}
		}
	})
	if used > allocBound(len(b)) {
		c.Fail("decoding %d bytes allocated %d bytes; %s", len(b), used, mon.Hex(b))
	}
	return vals, err
}

func hostile(c *mon.C) {
	amf3 := c.P(50)
	if d, ok := c.Directed(); ok {
		hostileDirected(c, d)
		return
	}
	switch k := c.N(10); {
	case k < 3: // proper prefixes
		count := mon.Pick(c, 1, 1, 2, 3)
		b, want, ends, _ := wireValues(c, amf3, count, mon.Pick(c, 4, 10, 30))
		if c.P(40) {
			b, want, ends = encodedValues(c, amf3)
			count = len(want)
		}
		c.Note("input %s", mon.Hex(b))
		tries := len(b)
		if tries > 120 {
			tries = 120
		}
		for t := 0; t < tries; t++ {
			cut := t
			if len(b) > 120 {
				cut = c.N(len(b))
				if c.P(30) {
					cut = len(b) - 1 - c.N(4)
				}
			}
			p := b[:cut:cut]
			whole := 0
			for whole < count && ends[whole] <= cut {
				whole++
			}
			boundary := cut == 0 || whole > 0 && ends[whole-1] == cut
			vals, err := newDecoder(amf3).DecodeBatch(bytes.NewReader(p))
			if !boundary && err == nil {
				c.Fail("batch cut at byte %d of %d (values end at %v) reported as complete, %d values; %s", cut, len(b), ends, len(vals), mon.Hex(p))
			}
			if boundary && err != nil {
				c.Fail("batch of %d complete values refused: %v", whole, err)
			}
			if len(vals) > whole {
				c.Fail("batch cut at byte %d delivered %d values, only %d are complete; %s", cut, len(vals), whole, mon.Hex(p))
			}
			m := newMatcher(amf3)
			for i := range vals {
				if s := m.match(want[i], vals[i], fmt.Sprintf("value %d before the cut", i)); s != "" {
					c.Fail("%s", s)
				}
			}
			if cut < ends[0] {
				if v, err := newDecoder(amf3).Decode(bytes.NewReader(p)); err == nil {
					c.Fail("%d of %d bytes decoded to %T %v; %s", cut, ends[0], v, brief(v), mon.Hex(p))
				}
			}
			c.Event("prefixes refused")
		}
		c.Shape("prefix", amf3, shapeOf(want[0]), count)
	case k < 8: // mutations
		b, _, _, _ := wireValues(c, amf3, mon.Pick(c, 1, 2, 3), mon.Pick(c, 5, 20, 60))
		b = mutate(c, append([]byte(nil), b...))
		if len(b) > 20000 {
			b = b[:20000]
		}
		c.Note("input %s", mon.Hex(b))
		d := newDecoder(amf3)
		batch := c.P(50)
		vals, err := tryDecode(c, amf3, batch, b, d)
		if !batch && err == nil {
			// what was delivered as a value must not be a prefix of itself
			r := kit.NewReader(b)
			if _, err := newDecoder(amf3).Decode(r); err == nil && r.Off > 0 {
				if _, err := newDecoder(amf3).Decode(bytes.NewReader(b[:r.Off-1])); err == nil {
					c.Fail("a value of %d bytes decodes without its last byte too; %s", r.Off, mon.Hex(b[:r.Off]))
				}
			}
		}
		c.Event("arbitrary inputs")
		c.Shape("mut", amf3, batch, len(vals), err != nil, bucket(len(b)), head(b, 3))
	default: // random bytes, weighted to low markers
		n := c.Size(400)
		b := c.Bytes(n)
		if c.P(60) {
			for i := range b {
				if c.P(60) {
					b[i] = byte(c.N(18))
				}
			}
		}
		if len(b) > 0 && c.P(70) {
			b[0] = byte(c.N(18))
		}
		c.Note("input %s", mon.Hex(b))
		vals, err := tryDecode(c, amf3, c.P(50), b, newDecoder(amf3))
		c.Event("arbitrary inputs")
		c.Shape("rnd", amf3, len(vals), err != nil, bucket(len(b)), head(b, 2))
	}
}

func head(b []byte, n int) string { return string(b[:min(n, len(b))]) }

// encodedValues uses the real encoder as the source of valid encodings.
func encodedValues(c *mon.C, amf3 bool) (b []byte, want []*node, ends []int) {
	g := &goGen{c: c, amf3: amf3, budget: 12}
	e := newCodec(amf3)
	var out bytes.Buffer
	for i := c.Range(1, 2); i > 0; i-- {
		v, n := g.value(3)
		if _, err := e.Encode(&out, v); err != nil {
			c.Fail("encode: %v", err)
		}
		want = append(want, n)
		ends = append(ends, out.Len())
	}
	return out.Bytes(), want, ends
}

func mutate(c *mon.C, b []byte) []byte {
	for i := c.Range(1, 5); i > 0 && len(b) > 0; i-- {
		p := c.N(len(b))
		switch c.N(8) {
		case 0:
			b[p] ^= 1 << c.N(8)
		case 1:
			b[p] = byte(c.Uint32())
		case 2:
			b[p] = mon.Pick(c, byte(0), 1, 0x7f, 0x80, 0xff, 9, 10, 17)
		case 3:
			b = append(b[:p], b[p+1:]...)
		case 4:
			b = append(b[:p], append([]byte{byte(c.N(18))}, b[p:]...)...)
		case 5:
			for k := p; k < min(len(b), p+4); k++ {
				b[k] = 0xff
			}
		case 6:
			q := c.N(len(b))
			n := c.N(min(len(b)-q, 40) + 1)
			b = append(b[:p], append(append([]byte(nil), b[q:q+n]...), b[p:]...)...)
		case 7:
			b = b[:p]
		}
	}
	return b
}

// nest builds n levels of one container around a null.
func nest(form, n int) (b []byte, amf3 bool, name string) {
	type lv struct {
		name       string
		pre, first []byte
		leaf, post []byte
		amf3       bool
	}
	ac := append([]byte{10, 7, byte(len(arrayCollection)<<1 | 1)}, arrayCollection...)
	ls := []lv{
		{"object", []byte{3, 0, 1, 'k'}, nil, []byte{5}, []byte{0, 0, 9}, false},
		{"ecma array", []byte{8, 0, 0, 0, 1, 0, 1, 'k'}, nil, []byte{5}, []byte{0, 0, 9}, false},
		{"strict array", []byte{10, 0, 0, 0, 1}, nil, []byte{5}, nil, false},
		{"typed object", []byte{16, 0, 1, 'T', 0, 1, 'k'}, nil, []byte{5}, []byte{0, 0, 9}, false},
		{"amf3 dense array", []byte{9, 3, 1}, nil, []byte{1}, nil, true},
		{"amf3 associative array", []byte{9, 1, 3, 'k'}, nil, []byte{1}, []byte{1}, true},
		{"amf3 sealed object", []byte{10, 0x13, 1, 3, 'k'}, nil, []byte{1}, nil, true},
		{"amf3 dynamic object", []byte{10, 0x0b, 1, 3, 'k'}, nil, []byte{1}, []byte{1}, true},
		{"amf3 trait reference", []byte{10, 1}, []byte{10, 0x13, 1, 3, 'k'}, []byte{1}, nil, true},
		{"array collection", ac, nil, []byte{1}, nil, true},
		{"array collection by reference", []byte{10, 1}, ac, []byte{1}, nil, true},
		{"external message", []byte{10, 7, 7, 'D', 'S', 'A', 1}, nil, []byte{1}, []byte{0}, true},
		{"registered handler", append(append([]byte{10, 7, byte(len(handlerClass)<<1 | 1)}, handlerClass...), 0, 1), nil, []byte{1}, nil, true},
	}
	l := ls[form%len(ls)]
	if most := 64 << 20 / (len(l.pre) + len(l.post)); n > most {
		n = most
	}
	for i := 0; i < n; i++ {
		if i == 0 && l.first != nil {
			b = append(b, l.first...)
			continue
		}
		b = append(b, l.pre...)
	}
	b = append(b, l.leaf...)
	for i := 0; i < n; i++ {
		b = append(b, l.post...)
	}
	return b, l.amf3, l.name
}

func hostileDirected(c *mon.C, d int) {
	switch {
	case d < 13: // 500 levels are accepted, also after earlier failures of the same decoder
		b, amf3, name := nest(d, 500)
		dec := newDecoder(amf3)
		deep, _, _ := nest(d, 30000)
		for i := 0; i < 8; i++ {
			dec.Decode(bytes.NewReader(deep))
			dec.Decode(bytes.NewReader(b[:len(b)/2]))
			dec.DecodeBatch(bytes.NewReader(deep[:20000]))
		}
		if dd := newDecoder(amf3); true {
			if _, err := dd.Decode(bytes.NewReader(b)); err != nil {
				c.Fail("500 nested levels (%s) refused: %v", name, err)
			}
		}
		if !strings.Contains(name, "reference") {
			if _, err := dec.Decode(bytes.NewReader(b)); err != nil {
				c.Fail("500 nested levels (%s) refused by a decoder that refused deeper input before: %v", name, err)
			}
		}
		if amf3 {
			if _, err := newDecoder(false).Decode(bytes.NewReader(append([]byte{17}, b...))); err != nil {
				c.Fail("499 nested levels (%s) inside AMF0 refused: %v", name, err)
			}
		}
		c.Event("nesting accepted")
		c.Shape("accept", name)
	case d < 26: // far deeper: no crash
		b, amf3, name := nest(d-13, 3000000)
		for _, bb := range [][]byte{b, b[:len(b)/3]} {
			if !amf3 || c.P(50) {
				newDecoder(amf3).Decode(bytes.NewReader(bb))
			} else {
				newDecoder(false).DecodeBatch(bytes.NewReader(append([]byte{17}, bb...)))
			}
		}
		c.Event("deep inputs")
		c.Shape("deep", name)
	case d < 40: // claimed lengths far beyond the data
		hs := [][]byte{
			{12, 0xff, 0xff, 0xff, 0xff, 'a'}, {12, 0x7f, 0xff, 0xff, 0xff}, {15, 0xff, 0xff, 0xff, 0xf0, 1, 2, 3},
			{10, 0xff, 0xff, 0xff, 0xff, 5, 5}, {8, 0xff, 0xff, 0xff, 0xff, 0, 1, 'k', 5}, {10, 0x10, 0, 0, 0},
			{17, 6, 0xff, 0xff, 0xff, 0xff, 'a'}, {17, 12, 0xff, 0xff, 0xff, 0xff, 'a'}, {17, 11, 0xff, 0xff, 0xff, 0xff, 'a'},
			{17, 9, 0xff, 0xff, 0xff, 0xff, 1, 1, 1}, {17, 10, 0xff, 0xff, 0xff, 0xfb, 1, 1}, {17, 10, 0xff, 0xff, 0xff, 0xf3, 3, 'c', 3, 'a'},
			{2, 0xff, 0xff}, {12, 0, 1, 0, 0},
		}
		b := hs[d-26]
		for i := 0; i < 3; i++ {
			vals, err := tryDecode(c, false, false, b, newDecoder(false))
			if err == nil {
				c.Fail("%x decoded to %v", b, vals)
			}
			tryDecode(c, false, true, b, newDecoder(false))
			if b[0] == 17 {
				if _, err := tryDecode(c, true, true, b[1:], newDecoder(true)); err == nil {
					c.Fail("%x accepted as AMF3", b[1:])
				}
			}
			b = append([]byte{3, 0, 1, 'k'}, b...)
		}
		c.Event("arbitrary inputs")
		c.Shape("length", d)
	}
}

// ---- A06: reader delivery ----

func readers(c *mon.C) {
	amf3 := c.P(50)
	class := mon.Pick(c, "valid", "valid", "valid", "trailing", "mutated", "random")
	count := mon.Pick(c, 1, 1, 2, 4)
	b, want, ends, _ := wireValues(c, amf3, count, mon.Pick(c, 4, 12, 40))
	if c.P(4) {
		// strings above the size read in one piece
		s := genStrN(c, mon.Pick(c, 65535, 65536, 65537, 70000, 140000))
		n := &node{k: kStr, s: s}
		if amf3 {
			e := newEnc3(c)
			e.val(n)
			b = e.b
		} else {
			e := newEnc0(c)
			e.val(n)
			b = e.b
		}
		want, ends, count = []*node{n}, []int{len(b)}, 1
	}
	valid := b
	switch class {
	case "trailing":
		b = append(append([]byte(nil), b...), c.Bytes(c.Range(1, 30))...)
	case "mutated":
		b = mutate(c, append([]byte(nil), b...))
	case "random":
		b = c.Bytes(c.N(200))
		for i := range b {
			if c.P(60) {
				b[i] = byte(c.N(18))
			}
		}
	}
	c.Note("%s input %s", class, mon.Hex(b))
	// singly
	mem, chunk := newDecoder(amf3), newDecoder(amf3)
	mr := bytes.NewReader(b)
	cr, pattern := kit.Chunked(c, b)
	for i := 0; i < count+2; i++ {
		v1, err1 := mem.Decode(mr)
		v2, err2 := chunk.Decode(cr)
		if (err1 == nil) != (err2 == nil) {
			c.Fail("value %d: from memory %v, from reader (%s) %v; %s", i, err1, pattern, err2, mon.Hex(b))
		}
		c.Event("chunked decodes compared")
		if err1 != nil {
			break
		}
		if s := equal(v1, v2, map[[2]uintptr]bool{}, fmt.Sprintf("value %d (%s)", i, pattern)); s != "" {
			c.Fail("%s; %s", s, mon.Hex(b))
		}
		if cr.Off != len(b)-mr.Len() {
			c.Fail("value %d: reader (%s) stands at %d, memory reader at %d", i, pattern, cr.Off, len(b)-mr.Len())
		}
		if class != "mutated" && class != "random" && i < count {
			if cr.Off != ends[i] {
				c.Fail("value %d ends at byte %d, %d bytes were consumed (%s)", i, ends[i], cr.Off, pattern)
			}
			c.Event("consumption checked")
		}
		c.Shape(amf3, class, pattern, shapeOf(want[min(i, count-1)]))
	}
	// as a batch
	v1, err1 := newDecoder(amf3).DecodeBatch(bytes.NewReader(b))
	cr, pattern = kit.Chunked(c, b)
	v2, err2 := newDecoder(amf3).DecodeBatch(cr)
	if (err1 == nil) != (err2 == nil) {
		c.Fail("batch: from memory %v, from reader (%s) %v; %s", err1, pattern, err2, mon.Hex(b))
	}
	if s := equalAll(v1, v2); s != "" {
		c.Fail("batch (%s): %s; %s", pattern, s, mon.Hex(b))
	}
	c.Event("chunked decodes compared")
	// faults, on well-formed input
	for t := 0; t < 4; t++ {
		cr, pattern = kit.Chunked(c, valid)
		cr.FailAt = c.N(len(valid) + 1)
		if t == 3 {
			cr.FailAt = mon.Pick(c, 0, 1, len(valid)-1, len(valid))
		}
		cr.FailWith = c.P(50)
		if c.P(25) {
			cr.Err = io.ErrClosedPipe
		}
		text := cr.Err.Error()
		dec := newDecoder(amf3)
		if c.P(50) {
			vals, err := dec.DecodeBatch(cr)
			if err == nil || !strings.Contains(err.Error(), text) {
				c.Fail("reader failed at byte %d of %d (%s): batch returned %d values, error %v; %s", cr.FailAt, len(valid), pattern, len(vals), err, mon.Hex(valid))
			}
			m := newMatcher(amf3)
			for i := range vals {
				if i >= count || ends[i] > cr.FailAt {
					c.Fail("reader failed at byte %d: value %d was delivered", cr.FailAt, i)
				}
				if s := m.match(want[i], vals[i], "value before the fault"); s != "" {
					c.Fail("%s", s)
				}
			}
			c.Event("faults reported")
			continue
		}
		m := newMatcher(amf3)
		for i := 0; i < count; i++ {
			v, err := dec.Decode(cr)
			if ends[i] <= cr.FailAt {
				if err != nil {
					c.Fail("value %d ends at %d, before the fault at byte %d (%s), yet: %v", i, ends[i], cr.FailAt, pattern, err)
				}
				if s := m.match(want[i], v, "value before the fault"); s != "" {
					c.Fail("%s", s)
				}
				continue
			}
			if err == nil {
				c.Fail("reader failed at byte %d inside value %d (%s): %T %v returned; %s", cr.FailAt, i, pattern, v, brief(v), mon.Hex(valid))
			}
			if !strings.Contains(err.Error(), text) {
				c.Fail("reader failed with %q at byte %d, Decode reports %q", text, cr.FailAt, err)
			}
			c.Event("faults reported")
			break
		}
	}
}

var _ = math.Pi
