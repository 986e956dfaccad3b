package amf

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"strings"

	"verif/mon"
)

// enc3 is the reference AMF3 encoder; it keeps the three implicit tables.
type enc3 struct {
	c      *mon.C
	b      []byte
	strs   map[string]int
	nstr   int
	objs   map[*node]int
	nobj   int
	traits map[string]int
	ntrait int
	noRefs bool
	used   map[string]int
}

func newEnc3(c *mon.C) *enc3 {
	return &enc3{c: c, strs: map[string]int{}, objs: map[*node]int{}, traits: map[string]int{}, used: map[string]int{}}
}

func (e *enc3) u29(v int) {
	u := uint32(v)
	switch {
	case u < 1<<7:
		e.b = append(e.b, byte(u))
	case u < 1<<14:
		e.b = append(e.b, byte(u>>7)|0x80, byte(u)&0x7f)
	case u < 1<<21:
		e.b = append(e.b, byte(u>>14)|0x80, byte(u>>7)|0x80, byte(u)&0x7f)
	case u < 1<<29:
		e.b = append(e.b, byte(u>>22)|0x80, byte(u>>15)|0x80, byte(u>>8)|0x80, byte(u))
	default:
		panic("u29 range")
	}
}

func (e *enc3) f(v float64) { e.b = binary.BigEndian.AppendUint64(e.b, math.Float64bits(v)) }

func (e *enc3) str(s string) {
	if s == "" {
		e.b = append(e.b, 1)
		return
	}
	if i, ok := e.strs[s]; ok && !e.noRefs && e.c.P(80) {
		e.u29(i << 1)
		e.used["string-ref"]++
		return
	}
	if _, ok := e.strs[s]; !ok || e.c.P(50) {
		e.strs[s] = e.nstr
	}
	e.nstr++
	e.u29(len(s)<<1 | 1)
	e.b = append(e.b, s...)
}

// obj writes a reference, or registers the object and returns false.
func (e *enc3) obj(n *node) bool {
	if i, ok := e.objs[n]; ok && !e.noRefs {
		e.u29(i << 1)
		e.used["object-ref"]++
		return true
	}
	e.objs[n] = e.nobj
	e.nobj++
	return false
}

func (e *enc3) val(n *node) {
	switch n.k {
	case kUndef:
		e.b = append(e.b, 0)
	case kNull:
		e.b = append(e.b, 1)
	case kBool:
		if n.b {
			e.b = append(e.b, 3)
		} else {
			e.b = append(e.b, 2)
		}
	case kInt:
		e.b = append(e.b, 4)
		e.u29(int(n.u))
	case kNum:
		e.b = append(e.b, 5)
		e.f(n.f)
	case kStr:
		e.b = append(e.b, 6)
		e.str(n.s)
	case kXML, kXMLDoc, kBytes:
		e.b = append(e.b, map[kind]byte{kXMLDoc: 7, kXML: 11, kBytes: 12}[n.k])
		if !e.obj(n) {
			e.u29(len(n.s)<<1 | 1)
			e.b = append(e.b, n.s...)
		}
	case kDate:
		e.b = append(e.b, 8)
		if !e.obj(n) {
			e.b = append(e.b, 1)
			e.f(n.ms)
		}
	case kArr3:
		e.b = append(e.b, 9)
		if e.obj(n) {
			return
		}
		e.u29(len(n.items)<<1 | 1)
		for i, k := range n.keys {
			e.str(k)
			e.val(n.vals[i])
		}
		e.b = append(e.b, 1)
		for _, v := range n.items {
			e.val(v)
		}
	case kObj, kTyped, kExt:
		e.b = append(e.b, 10)
		if e.obj(n) {
			return
		}
		ext := n.k == kExt
		sealed := n.keys[:n.sealed]
		if ext {
			sealed = nil
		}
		sig := fmt.Sprintf("%q %v %v %q", n.s, ext, n.dynamic, sealed)
		if i, ok := e.traits[sig]; ok && !e.noRefs && e.c.P(85) {
			e.u29(i<<2 | 1)
			e.used["trait-ref"]++
		} else {
			if !ok || e.c.P(50) {
				e.traits[sig] = e.ntrait
			}
			e.ntrait++
			h := len(sealed)<<4 | 3
			if ext {
				h |= 4
			}
			if n.dynamic && !ext {
				h |= 8
			}
			e.u29(h)
			e.str(n.s)
			for _, k := range sealed {
				e.str(k)
			}
		}
		if ext {
			e.ext(n)
			return
		}
		for i := 0; i < n.sealed; i++ {
			e.val(n.vals[i])
		}
		if n.dynamic {
			for i := n.sealed; i < len(n.keys); i++ {
				e.str(n.keys[i])
				e.val(n.vals[i])
			}
			e.b = append(e.b, 1)
		}
	default:
		panic(fmt.Sprint("enc3: kind ", n.k))
	}
}

func (e *enc3) ext(n *node) {
	e.used["external"]++
	switch n.s {
	case arrayCollection:
		e.val(n.items[0])
	case "DSA", "DSK":
		k := 0
		for _, sec := range n.flags {
			e.b = append(e.b, sec...)
			for _, fl := range sec {
				for bit := 0; bit < 7; bit++ {
					if fl>>bit&1 == 1 {
						e.val(n.vals[k])
						k++
					}
				}
			}
		}
	default:
		e.b = append(e.b, byte(len(n.raw)))
		e.b = append(e.b, n.raw...)
		e.b = append(e.b, byte(len(n.items)))
		for _, v := range n.items {
			e.val(v)
		}
	}
}

var messageFields = map[int]map[int][]string{ // section -> flag byte -> names
	0: {0: {"body", "clientId", "destination", "headers", "messageId", "timeStamp", "timeToLive"}, 1: {"clientIdBytes", "messageIdBytes"}},
	1: {0: {"correlationId", "correlationIdBytes"}},
}

func flagName(section, byteNo, bit int) string {
	names := messageFields[section][byteNo]
	if bit < len(names) {
		return names[bit]
	}
	return fmt.Sprintf("extra_%d_%d", byteNo, bit)
}

// dec3 is the reference AMF3 decoder for what the encoder under test may emit:
// everything but externalizable objects, strict, into nodes.
type dec3 struct {
	b      []byte
	off    int
	strs   []string
	objs   []*node
	traits []trait3
	depth  int
}

type trait3 struct {
	name    string
	dynamic bool
	props   []string
}

func (d *dec3) take(n int) ([]byte, error) {
	if n < 0 || len(d.b)-d.off < n {
		return nil, errShort
	}
	p := d.b[d.off : d.off+n]
	d.off += n
	return p, nil
}

func (d *dec3) u29() (int, error) {
	v := 0
	for i := 0; i < 4; i++ {
		p, err := d.take(1)
		if err != nil {
			return 0, err
		}
		if i == 3 {
			return v<<8 | int(p[0]), nil
		}
		v = v<<7 | int(p[0]&0x7f)
		if p[0]&0x80 == 0 {
			return v, nil
		}
	}
	return v, nil
}

func (d *dec3) str() (string, error) {
	h, err := d.u29()
	if err != nil {
		return "", err
	}
	if h&1 == 0 {
		if h>>1 >= len(d.strs) {
			return "", errors.New("string reference out of range")
		}
		return d.strs[h>>1], nil
	}
	p, err := d.take(h >> 1)
	if err != nil {
		return "", err
	}
	if len(p) > 0 {
		d.strs = append(d.strs, string(p))
	}
	return string(p), nil
}

func (d *dec3) val() (*node, error) {
	d.depth++
	defer func() { d.depth-- }()
	if d.depth > 2000 {
		return nil, errors.New("too deep")
	}
	p, err := d.take(1)
	if err != nil {
		return nil, err
	}
	n := &node{}
	switch p[0] {
	case 0:
		n.k = kUndef
	case 1:
		n.k = kNull
	case 2, 3:
		n.k, n.b = kBool, p[0] == 3
	case 4:
		n.k = kInt
		v, err := d.u29()
		if err != nil {
			return nil, err
		}
		n.u = uint32(v)
	case 5:
		n.k = kNum
		q, err := d.take(8)
		if err != nil {
			return nil, err
		}
		n.f = math.Float64frombits(binary.BigEndian.Uint64(q))
	case 6:
		n.k = kStr
		n.s, err = d.str()
		if err != nil {
			return nil, err
		}
	case 7, 8, 9, 10, 11, 12:
		h, err := d.u29()
		if err != nil {
			return nil, err
		}
		if h&1 == 0 {
			if h>>1 >= len(d.objs) {
				return nil, errors.New("object reference out of range")
			}
			return d.objs[h>>1], nil
		}
		d.objs = append(d.objs, n)
		return n, d.body(n, p[0], h)
	default:
		return nil, fmt.Errorf("marker %d", p[0])
	}
	return n, nil
}

func (d *dec3) body(n *node, marker byte, h int) error {
	switch marker {
	case 7, 11, 12:
		n.k = map[byte]kind{7: kXMLDoc, 11: kXML, 12: kBytes}[marker]
		p, err := d.take(h >> 1)
		if err != nil {
			return err
		}
		n.s = string(p)
	case 8:
		n.k = kDate
		p, err := d.take(8)
		if err != nil {
			return err
		}
		n.ms = math.Float64frombits(binary.BigEndian.Uint64(p))
	case 9:
		n.k = kArr3
		for {
			k, err := d.str()
			if err != nil {
				return err
			}
			if k == "" {
				break
			}
			v, err := d.val()
			if err != nil {
				return err
			}
			n.keys, n.vals = append(n.keys, k), append(n.vals, v)
		}
		for i := 0; i < h>>1; i++ {
			v, err := d.val()
			if err != nil {
				return err
			}
			n.items = append(n.items, v)
		}
	case 10:
		n.k = kObj
		var t trait3
		switch {
		case h&2 == 0:
			if h>>2 >= len(d.traits) {
				return errors.New("trait reference out of range")
			}
			t = d.traits[h>>2]
		case h&4 != 0:
			return errors.New("externalizable object emitted")
		default:
			t.dynamic = h&8 != 0
			var err error
			if t.name, err = d.str(); err != nil {
				return err
			}
			for i := 0; i < h>>4; i++ {
				k, err := d.str()
				if err != nil {
					return err
				}
				t.props = append(t.props, k)
			}
			d.traits = append(d.traits, t)
		}
		n.s, n.dynamic, n.sealed = t.name, t.dynamic, len(t.props)
		if t.name != "" {
			n.k = kTyped
		}
		seen := map[string]bool{}
		for _, k := range t.props {
			if seen[k] {
				return fmt.Errorf("property %q twice", k)
			}
			seen[k] = true
			v, err := d.val()
			if err != nil {
				return err
			}
			n.keys, n.vals = append(n.keys, strings.Clone(k)), append(n.vals, v)
		}
		if t.dynamic {
			for {
				k, err := d.str()
				if err != nil {
					return err
				}
				if k == "" {
					break
				}
				v, err := d.val()
				if err != nil {
					return err
				}
				n.keys, n.vals = append(n.keys, k), append(n.vals, v)
			}
		}
	}
	return nil
}
