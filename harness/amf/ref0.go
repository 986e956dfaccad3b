package amf

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"

	"verif/mon"
)

// enc0 is the reference AMF0 encoder. Complex values seen before are written as
// references when the coin says so.
type enc0 struct {
	c    *mon.C
	b    []byte
	refs map[*node]int
	n    int
	e3   *enc3
	used int // references written
}

func newEnc0(c *mon.C) *enc0 { return &enc0{c: c, refs: map[*node]int{}} }

func (e *enc0) u16(v int)    { e.b = binary.BigEndian.AppendUint16(e.b, uint16(v)) }
func (e *enc0) u32(v int)    { e.b = binary.BigEndian.AppendUint32(e.b, uint32(v)) }
func (e *enc0) f(v float64)  { e.b = binary.BigEndian.AppendUint64(e.b, math.Float64bits(v)) }
func (e *enc0) key(s string) { e.u16(len(s)); e.b = append(e.b, s...) }

func (e *enc0) members(n *node) {
	for i, k := range n.keys {
		e.key(k)
		e.val(n.vals[i])
	}
	e.b = append(e.b, 0, 0, 9)
}

func (e *enc0) val(n *node) {
	if n.complex0() {
		if i, ok := e.refs[n]; ok {
			e.b = append(e.b, 7)
			e.u16(i)
			e.used++
			return
		}
		e.refs[n] = e.n
		e.n++
	}
	switch n.k {
	case kNull:
		e.b = append(e.b, 5)
	case kUndef:
		e.b = append(e.b, 6)
	case kUnsup:
		e.b = append(e.b, 13)
	case kBool:
		if n.b && n.form != 0 { // any byte but zero
			e.b = append(e.b, 1, byte(n.form))
		} else if n.b {
			e.b = append(e.b, 1, 1)
		} else {
			e.b = append(e.b, 1, 0)
		}
	case kNum:
		e.b = append(e.b, 0)
		e.f(n.f)
	case kStr:
		if len(n.s) > 65535 || n.form == 1 {
			e.b = append(e.b, 12)
			e.u32(len(n.s))
			e.b = append(e.b, n.s...)
		} else {
			e.b = append(e.b, 2)
			e.key(n.s)
		}
	case kXML:
		e.b = append(e.b, 15)
		e.u32(len(n.s))
		e.b = append(e.b, n.s...)
	case kDate:
		e.b = append(e.b, 11)
		e.f(n.ms)
		e.u16(n.form)
	case kObj:
		e.b = append(e.b, 3)
		e.members(n)
	case kEcma:
		e.b = append(e.b, 8)
		e.u32(len(n.keys) + n.form) // modulo 2^32
		if n.form != 0 {
			e.c.Event("ECMA arrays of another length than announced")
		}
		e.members(n)
	case kTyped:
		e.b = append(e.b, 16)
		e.key(n.s)
		e.members(n)
	case kStrict:
		e.b = append(e.b, 10)
		e.u32(len(n.items))
		for _, v := range n.items {
			e.val(v)
		}
	case kAMF3:
		e.b = append(e.b, 17)
		if e.e3 == nil {
			e.e3 = newEnc3(e.c)
			e.e3.noRefs = true
		}
		e.e3.b = e.b
		e.e3.val(n.items[0])
		e.b = e.e3.b
	default:
		panic(fmt.Sprint("enc0: kind ", n.k))
	}
}

// dec0 is the reference AMF0 decoder: strict, into nodes.
type dec0 struct {
	b     []byte
	off   int
	refs  []*node
	depth int
	d3    *dec3
}

var errShort = errors.New("short")

func (d *dec0) take(n int) ([]byte, error) {
	if n < 0 || len(d.b)-d.off < n {
		return nil, errShort
	}
	p := d.b[d.off : d.off+n]
	d.off += n
	return p, nil
}

func (d *dec0) u8() (byte, error) {
	p, err := d.take(1)
	if err != nil {
		return 0, err
	}
	return p[0], nil
}

func (d *dec0) u16() (int, error) {
	p, err := d.take(2)
	if err != nil {
		return 0, err
	}
	return int(binary.BigEndian.Uint16(p)), nil
}

func (d *dec0) u32() (int, error) {
	p, err := d.take(4)
	if err != nil {
		return 0, err
	}
	return int(binary.BigEndian.Uint32(p)), nil
}

func (d *dec0) f() (float64, error) {
	p, err := d.take(8)
	if err != nil {
		return 0, err
	}
	return math.Float64frombits(binary.BigEndian.Uint64(p)), nil
}

func (d *dec0) str(n int, err error) (string, error) {
	if err != nil {
		return "", err
	}
	p, err := d.take(n)
	return string(p), err
}

func (d *dec0) members(n *node) (*node, error) {
	for {
		k, err := d.str(d.u16())
		if err != nil {
			return nil, err
		}
		if k == "" {
			m, err := d.u8()
			if err != nil {
				return nil, err
			}
			if m != 9 {
				return nil, fmt.Errorf("object end marker is %d", m)
			}
			return n, nil
		}
		v, err := d.val()
		if err != nil {
			return nil, err
		}
		n.keys = append(n.keys, k)
		n.vals = append(n.vals, v)
	}
}

func (d *dec0) val() (*node, error) {
	d.depth++
	defer func() { d.depth-- }()
	if d.depth > 2000 {
		return nil, errors.New("too deep")
	}
	m, err := d.u8()
	if err != nil {
		return nil, err
	}
	n := &node{}
	switch m {
	case 0:
		n.k = kNum
		n.f, err = d.f()
	case 1:
		var b byte
		b, err = d.u8()
		if err == nil && b > 1 {
			return nil, fmt.Errorf("boolean byte %d", b)
		}
		n.k, n.b = kBool, b == 1
	case 2:
		n.k = kStr
		n.s, err = d.str(d.u16())
	case 3:
		n.k = kObj
		d.refs = append(d.refs, n)
		return d.members(n)
	case 5:
		n.k = kNull
	case 6:
		n.k = kUndef
	case 7:
		i, err := d.u16()
		if err != nil {
			return nil, err
		}
		if i >= len(d.refs) {
			return nil, fmt.Errorf("reference %d of %d", i, len(d.refs))
		}
		return d.refs[i], nil
	case 8:
		n.k = kEcma
		d.refs = append(d.refs, n)
		cnt, err := d.u32()
		if err != nil {
			return nil, err
		}
		if _, err = d.members(n); err != nil {
			return nil, err
		}
		if cnt != len(n.keys) {
			return nil, fmt.Errorf("ECMA array count %d, %d members", cnt, len(n.keys))
		}
	case 10:
		n.k = kStrict
		d.refs = append(d.refs, n)
		cnt, err := d.u32()
		if err != nil {
			return nil, err
		}
		for i := 0; i < cnt; i++ {
			v, err := d.val()
			if err != nil {
				return nil, err
			}
			n.items = append(n.items, v)
		}
	case 11:
		n.k = kDate
		n.ms, err = d.f()
		if err == nil {
			n.form, err = d.u16()
		}
	case 12:
		n.k, n.form = kStr, 1
		n.s, err = d.str(d.u32())
	case 13:
		n.k = kUnsup
	case 15:
		n.k = kXML
		n.s, err = d.str(d.u32())
	case 16:
		n.k = kTyped
		d.refs = append(d.refs, n)
		n.s, err = d.str(d.u16())
		if err != nil {
			return nil, err
		}
		return d.members(n)
	case 17:
		n.k = kAMF3
		if d.d3 == nil {
			d.d3 = &dec3{}
		}
		d.d3.b, d.d3.off = d.b, d.off
		v, err := d.d3.val()
		d.off = d.d3.off
		if err != nil {
			return nil, err
		}
		n.items = []*node{v}
	default:
		return nil, fmt.Errorf("marker %d", m)
	}
	if err != nil {
		return nil, err
	}
	return n, nil
}
