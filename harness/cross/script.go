// Package cross watches what holds for all parts alike: independence of
// instances, untouched inputs and reported write failures.
package cross

import (
	"bufio"
	"bytes"
	"fmt"
	"hash/fnv"
	"io"
	"reflect"
	"sort"
	"strings"

	goamf "github.com/moggle-mog/goav/amf"
	goflv "github.com/moggle-mog/goav/container/flv"
	gots "github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/container/ts/table"
	gogop "github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"
	"github.com/moggle-mog/goav/parser/aac"
	"github.com/moggle-mog/goav/parser/h264"
	"github.com/moggle-mog/goav/parser/mp3"
	gosips "github.com/moggle-mog/goav/sips"

	"verif/amf"
	"verif/codec"
	"verif/kit"
	"verif/media"
	"verif/mon"
	"verif/sips"
)

// op is one call on an instance; do returns what could be observed.
type op struct {
	name string
	do   func() string
	done []*kit.Guarded // inputs the caller may reuse afterwards
}

// script is a deterministic list of calls on one instance. All instances of a
// script read the same inputs.
type script struct {
	kind string
	bufs []*kit.Guarded
	vals []interface{} // Go values given to encoders
	make func() []op
	// one packet for all instances and uses
	shares bool
}

// kept holds results the caller goes on using while the object works on.
type kept struct {
	vals []interface{}
	then []string
}

func (k *kept) keep(v interface{}) {
	k.vals, k.then = append(k.vals, v), append(k.then, show(v))
}

const changed = "CHANGED "

// op tells whether every kept result is still what it was.
func (k *kept) op() op {
	return op{name: "kept results again", do: func() string {
		for i, v := range k.vals {
			if now := show(v); now != k.then[i] {
				return changed + fmt.Sprintf("result %d was %s and became %s", i, cut(k.then[i]), cut(now))
			}
		}
		return fmt.Sprint(len(k.vals), " kept")
	}}
}

func (s *script) guard(b []byte) *kit.Guarded {
	g := kit.Guard(b)
	s.bufs = append(s.bufs, g)
	return g
}

// check returns what was modified among the inputs.
func (s *script) check(prints []string) string {
	for i, g := range s.bufs {
		if d := g.Check(); d != "" {
			return fmt.Sprintf("input %d: %s", i, d)
		}
	}
	for i, p := range prints {
		if q := show(s.vals[i]); q != p {
			return fmt.Sprintf("the value %s became %s", cut(p), cut(q))
		}
	}
	return ""
}

func (s *script) prints() (p []string) {
	for _, v := range s.vals {
		p = append(p, show(v))
	}
	return
}

func cut(s string) string {
	if len(s) > 600 {
		return s[:400] + " ... " + s[len(s)-100:]
	}
	return s
}

// class names an error without its text.
func class(err error) string {
	switch err {
	case nil:
		return "ok"
	case io.EOF:
		return "EOF"
	}
	return "error"
}

// data observes bytes whose order is fixed.
func data(b []byte) string {
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%d:%016x:%x", len(b), h.Sum64(), b[:min(len(b), 48)])
}

// bag observes bytes whose order is not fixed.
func bag(b []byte) string {
	var n [256]int
	for _, x := range b {
		n[x]++
	}
	h := fnv.New64a()
	fmt.Fprint(h, n)
	return fmt.Sprintf("%d:%016x", len(b), h.Sum64())
}

func seen(b []byte, fixed bool) string {
	if fixed {
		return data(b)
	}
	return bag(b)
}

// show prints a value with its maps in key order and without addresses.
func show(v interface{}) string {
	var b strings.Builder
	print(&b, reflect.ValueOf(v), 10)
	return b.String()
}

func print(b *strings.Builder, v reflect.Value, depth int) {
	if b.Len() > 20000 || depth < 0 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Ptr {
			b.WriteByte('&')
		}
		print(b, v.Elem(), depth-1)
	case reflect.Map:
		fmt.Fprintf(b, "%v{", v.Type())
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		for _, k := range ks {
			fmt.Fprintf(b, "%q:", fmt.Sprint(k))
			print(b, v.MapIndex(k), depth-1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b.WriteString(data(v.Bytes()))
			return
		}
		fallthrough
	case reflect.Array:
		fmt.Fprintf(b, "%v[", v.Type())
		for i := 0; i < v.Len(); i++ {
			print(b, v.Index(i), depth-1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Struct:
		if v.Type().PkgPath() == "time" {
			if v.CanInterface() {
				fmt.Fprint(b, v.Interface())
			} else {
				fmt.Fprint(b, v.Field(0), " ", v.Field(1))
			}
			return
		}
		// decoded AMF3 arrays keep their elements in unexported fields
		all := strings.HasSuffix(v.Type().PkgPath(), "/amf")
		fmt.Fprintf(b, "%v(", v.Type())
		for i := 0; i < v.NumField(); i++ {
			if all || v.Type().Field(i).PkgPath == "" {
				fmt.Fprintf(b, "%s=", v.Type().Field(i).Name)
				if v.Type().Field(i).Name == "Src" && v.Field(i).Kind() == reflect.String {
					b.WriteString(bag([]byte(v.Field(i).String()))) // written parameters have no order
					continue
				}
				print(b, v.Field(i), depth-1)
				b.WriteByte(' ')
			}
		}
		b.WriteByte(')')
	case reflect.String:
		if s := v.String(); len(s) > 100 {
			fmt.Fprintf(b, "%q", data([]byte(s)))
		} else {
			fmt.Fprintf(b, "%q", s)
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		b.WriteString(v.Type().String())
	default:
		fmt.Fprintf(b, "%v %v", v.Type(), v)
	}
}

var kinds = []struct {
	name   string
	weight int
	gen    func(c *mon.C, s *script)
}{
	{"amf0", 3, func(c *mon.C, s *script) { codecScript(c, s, false) }},
	{"amf3", 3, func(c *mon.C, s *script) { codecScript(c, s, true) }},
	{"flv mixer", 3, flvMixer},
	{"demux and parse", 3, demuxParse},
	{"parsers", 2, parsers},
	{"ts muxer", 3, tsMuxer},
	{"ts mixer", 3, tsMixer},
	{"gop", 1, gopCache},
	{"sip messages", 3, sipMessages},
	{"sip values", 2, sipValues},
	{"sip headers", 2, sipHeaders},
	{"descriptor", 1, descriptor},
}

func newScript(c *mon.C) *script {
	total := 0
	for _, k := range kinds {
		total += k.weight
	}
	n := c.N(total)
	for _, k := range kinds {
		if n -= k.weight; n < 0 {
			s := &script{kind: k.name, shares: c.P(50)}
			k.gen(c, s)
			return s
		}
	}
	panic("unreachable")
}

// ---- AMF ----

func codecScript(c *mon.C, s *script, amf3 bool) {
	type step func(e amf.Codec, k *kept) op
	var steps []step
	enc := func(name string, fixed bool, f func(e amf.Codec, w io.Writer) (int, error)) {
		steps = append(steps, func(e amf.Codec, _ *kept) op {
			return op{name: name, do: func() string {
				var w bytes.Buffer
				n, err := f(e, &w)
				if err != nil && !fixed {
					return class(err) // what was written before depends on the order
				}
				return fmt.Sprint(n, class(err), seen(w.Bytes(), fixed))
			}}
		})
	}
	value := func() (interface{}, bool) {
		v := amf.GoValue(c, amf3, mon.Pick(c, 1, 4, 12))
		if c.P(5) {
			v = amf.Unencodable(c, amf3)
		}
		s.vals = append(s.vals, v)
		return v, !amf.Multi(v)
	}
	for n := c.Range(2, 8); n > 0; n-- {
		switch c.N(9) {
		case 0, 1, 2:
			v, fixed := value()
			enc("Encode", fixed, func(e amf.Codec, w io.Writer) (int, error) { return e.Encode(w, v) })
		case 3:
			var vs []interface{}
			fixed := true
			for k := c.N(4); k > 0; k-- {
				v, f := value()
				vs, fixed = append(vs, v), fixed && f
			}
			enc("EncodeBatch", fixed, func(e amf.Codec, w io.Writer) (int, error) { return 0, e.EncodeBatch(w, vs...) })
		case 4:
			if amf3 {
				continue
			}
			v, fixed := value()
			o := amf.GoObject(c, false, 6)
			s.vals = append(s.vals, o)
			str := string(c.Bytes(c.Size(300)))
			k := c.N(6)
			enc("special "+fmt.Sprint(k), fixed && !amf.Multi(o), func(e amf.Codec, w io.Writer) (int, error) {
				ed := e.(*goamf.EnDecAMF0)
				switch k {
				case 0:
					return ed.EncodeWithAMF3(w, v)
				case 1:
					return ed.EncodeXmlDocument(w, str)
				case 2:
					return ed.EncodeReference(w, 7)
				case 3:
					return ed.EncodeEcmaArray(w, o)
				case 4:
					return ed.EncodeUndefined(w)
				}
				return ed.EncodeUnsupported(w)
			})
		case 5, 6, 7:
			count := c.Range(1, 3)
			b := amf.Wire(c, amf3, count, mon.Pick(c, 6, 20))
			batch := c.P(40)
			if c.P(15) {
				b = amf.Mutate(c, b)
			}
			g := s.guard(b)
			steps = append(steps, func(e amf.Codec, k *kept) op {
				return op{name: "Decode", done: []*kit.Guarded{g}, do: func() string {
					r := bytes.NewReader(g.S)
					if batch {
						vs, err := e.DecodeBatch(r)
						for _, v := range vs {
							k.keep(v)
						}
						return class(err) + show(vs)
					}
					out := ""
					for i := 0; i < count; i++ {
						v, err := e.Decode(r)
						k.keep(v)
						out += class(err) + show(v)
						if err != nil {
							break
						}
					}
					return fmt.Sprint(out, " left ", r.Len())
				}}
			})
		default:
			b := append(amf.Value0(c, c.P(90)), amf.Value0(c, false)...)
			if c.P(40) {
				b = append([]byte("\x02\x00\x0d@setDataFrame"), b...)
			}
			g := s.guard(b)
			del := c.P(50)
			steps = append(steps, func(_ amf.Codec, k *kept) op {
				o := op{name: "meta header"}
				o.do = func() string {
					f := goamf.AddMetaHeader
					if del {
						f = goamf.DelMetaHeader
					}
					p, err := f(g.S, goamf.NewEnDecAMF0())
					k.keep(p)
					return class(err) + data(p)
				}
				return o // the result may lie in the input, which stays
			})
		}
	}
	s.make = func() (ops []op) {
		e := amf.NewCodec(amf3)
		k := &kept{}
		for _, st := range steps {
			ops = append(ops, st(e, k))
		}
		return append(ops, k.op())
	}
}

// ---- media ----

// body generates a tag body and what it is.
func body(c *mon.C) (typ int, b []byte) {
	switch c.N(9) {
	case 0:
		return packet.PktVideo, media.VideoTag(true, 0, 0, media.NewConfigLen(c, mon.Pick(c, 4, 4, 4, 4, 2, 1)).Record)
	case 1, 2, 3:
		au, _, _ := media.AU(c, media.AUOptions{IDR: 50, Sets: 15, Bad: 5, Small: c.P(97), Len: mon.Pick(c, 4, 4, 4, 4, 2, 1)})
		return packet.PktVideo, media.VideoTag(c.P(50), 1, int32(c.Range(-3000, 3000)), au)
	case 4:
		return packet.PktAudio, media.AACTag(0, media.NewASC(c).Record)
	case 5, 6:
		return packet.PktAudio, media.AACTag(1, c.Bytes(1+c.Size(600, 170, 350)))
	case 7:
		return packet.PktAudio, media.MP3Tag(media.MP3(c, c.N(3)))
	}
	return codec.Hostile(c)
}

func avcHeader(c *mon.C) []byte {
	return media.VideoTag(true, 0, 0, media.NewConfig(c).Record)
}

func flvMixer(c *mon.C, s *script) {
	type step struct {
		kind int
		pk   *parcel
		ts   uint32
		keep bool
		md   goamf.Object
	}
	var steps []step
	var sent []int
	fixed := true
	for n := c.Range(3, 14); n > 0; n-- {
		st := step{kind: c.N(10), ts: c.Uint32()}
		take := func(typ int, b []byte) {
			st.pk = s.parcel(c, typ, s.guard(b), c.Uint32(), false)
			sent = append(sent, len(steps))
		}
		if len(sent) > 0 && c.P(20) { // a packet once more
			j := sent[c.N(len(sent))]
			st.kind, st.pk, steps[j].keep = 3, steps[j].pk, true
			sent = append(sent, len(steps))
			for i := range steps[:len(steps)] {
				if steps[i].pk == st.pk {
					steps[i].keep = true
				}
			}
			steps = append(steps, st)
			continue
		}
		switch st.kind {
		case 0:
			st.md = amf.GoObject(c, false, 5)
			if c.P(5) {
				st.md = goamf.Object{"x": amf.Unencodable(c, false)}
			}
			fixed = fixed && !amf.Multi(st.md)
			s.vals = append(s.vals, st.md)
		case 1:
			take(packet.PktVideo, avcHeader(c))
		case 2:
			take(packet.PktAudio, media.AACTag(0, media.NewASC(c).Record))
		case 3, 4, 5, 6, 7:
			take(body(c))
		}
		steps = append(steps, st)
	}
	s.make = func() (ops []op) {
		w := &bytes.Buffer{}
		m := goflv.NewMixer(w)
		run := func(f func() error) func() string {
			return func() string {
				to, at := w, w.Len()
				err := f()
				if err != nil && !fixed {
					return class(err)
				}
				return class(err) + seen(to.Bytes()[at:], fixed)
			}
		}
		for _, st := range steps {
			st := st
			var p *packet.Packet
			var done []*kit.Guarded
			if st.pk != nil {
				p = st.pk.packet()
				if !st.keep {
					done = []*kit.Guarded{st.pk.g}
				}
			}
			switch st.kind {
			case 0:
				ops = append(ops, op{"SaveMetadata", run(func() error { return m.SaveMetadata(st.md) }), nil})
			case 1:
				ops = append(ops, op{"SaveAVCHeader", intact(p, run(func() error { return m.SaveAVCHeader(p) })), done})
			case 2:
				ops = append(ops, op{"SaveAACHeader", intact(p, run(func() error { return m.SaveAACHeader(p) })), done})
			case 8:
				ops = append(ops, op{"SetWriter", run(func() error { w = &bytes.Buffer{}; m.SetWriter(w); return nil }), nil})
			case 9:
				ops = append(ops, op{"SetFlvHeader", run(m.SetFlvHeader), nil})
			default:
				ops = append(ops, op{"Mux", intact(p, run(func() error { return m.Mux(p, st.ts) })), done})
			}
		}
		return append(ops, op{"SetFlvHeader", run(m.SetFlvHeader), nil})
	}
}

// header observes a demuxed header.
func header(h packet.Header) string {
	t, ok := h.(*goflv.Tag)
	if !ok || t == nil {
		return fmt.Sprintf("%T", h)
	}
	return fmt.Sprint(t.SoundFormat(), t.IsSoundAAC(), t.IsSoundMP3(), t.AACType(), t.IsAACSeqHdr(), t.IsCodecAvc(), t.IsKeyFrame(), t.IsInterFrame(), t.IsSeqHdr(), t.IsEndOfSeq(), t.CodecID(), t.CompositionTime())
}

func demuxParse(c *mon.C, s *script) {
	type step struct {
		typ int
		g   *kit.Guarded
	}
	var steps []step
	if c.P(70) {
		steps = append(steps, step{packet.PktVideo, s.guard(avcHeader(c))})
		steps = append(steps, step{packet.PktAudio, s.guard(media.AACTag(0, media.NewASC(c).Record))})
	}
	for n := c.Range(2, 10); n > 0; n-- {
		typ, b := body(c)
		steps = append(steps, step{typ, s.guard(b)})
	}
	s.make = func() (ops []op) {
		d := goflv.NewDemuxer()
		cp := parser.NewCodecParser()
		var ps []*packet.Packet
		var then []string
		for _, st := range steps {
			p := &packet.Packet{Type: st.typ, Data: st.g.S}
			ps = append(ps, p)
			ok := false
			ops = append(ops, op{"Demux", func() string {
				before := identify(p)
				err := d.Demux(p)
				now := identify(p)
				if now.off {
					return changed + "media of the packet lies outside its data"
				}
				before.hdr, before.head, before.media = now.hdr, now.head, now.media
				if d := before.altered(now); d != "" {
					return changed + d
				}
				ok = err == nil
				then = append(then, header(p.Header))
				return class(err) + header(p.Header) + data(p.Media)
			}, nil}, op{"Parse", intact(p, func() string {
				if !ok || st.typ != packet.PktAudio && st.typ != packet.PktVideo {
					return "none"
				}
				var w bytes.Buffer
				err := cp.Parse(p, &w)
				return class(err) + data(w.Bytes())
			}), []*kit.Guarded{st.g}}, op{"SampleRate", func() string {
				r, err := cp.SampleRate()
				return fmt.Sprint(r, class(err))
			}, nil})
		}
		return append(ops, op{"headers again", func() string {
			for i, p := range ps {
				if now := header(p.Header); now != then[i] {
					return changed + fmt.Sprintf("the header of packet %d was %s and became %s", i, then[i], now)
				}
			}
			return "same"
		}, nil})
	}
}

func parsers(c *mon.C, s *script) {
	type step struct {
		kind int
		g    *kit.Guarded
	}
	var steps []step
	first := c.P(80)
	for n := c.Range(3, 10); n > 0; n-- {
		st := step{kind: c.N(5)}
		if first {
			st.kind = 0
		}
		first = false
		var b []byte
		switch st.kind {
		case 0:
			b = media.NewConfig(c).Record
			if c.P(5) {
				b = media.BadConfig(c)
			}
		case 1:
			b, _, _ = media.AU(c, media.AUOptions{IDR: 60, Sets: 10, Bad: 5, Small: true})
		case 2:
			b = media.NewASC(c).Record
		case 3:
			b = c.Bytes(1 + c.Size(500))
		case 4:
			b = media.MP3(c, c.N(3))
		}
		st.g = s.guard(b)
		steps = append(steps, st)
	}
	s.make = func() (ops []op) {
		h, a, m := h264.NewParser(), aac.NewParser(), mp3.NewParser()
		for _, st := range steps {
			st := st
			ops = append(ops, op{fmt.Sprint("parser ", st.kind), func() string {
				var w bytes.Buffer
				var err error
				switch st.kind {
				case 0, 1:
					err = h.Parse(st.g.S, st.kind == 0, &w)
				case 2, 3:
					err = a.Parse(st.g.S, byte(st.kind-2), &w)
					if err == nil {
						return fmt.Sprint(a.SampleRate(), data(w.Bytes()))
					}
				default:
					err = m.Parse(st.g.S)
					if err == nil {
						return fmt.Sprint(m.SampleRate())
					}
				}
				return class(err) + data(w.Bytes())
			}, []*kit.Guarded{st.g}})
		}
		return
	}
}

func tsMuxer(c *mon.C, s *script) {
	type step struct {
		kind     int
		typ      int
		h        media.Hdr
		g        *kit.Guarded
		dts, pts int64
		a, b     string
	}
	var steps []step
	for n := c.Range(3, 14); n > 0; n-- {
		st := step{kind: c.N(8), dts: int64(c.Uint64() >> 31), a: string(c.Bytes(c.N(30))), b: string(c.Bytes(c.N(30)))}
		st.pts = st.dts + int64(c.N(9000))
		if st.kind >= 3 {
			st.g = s.guard(c.Bytes(1 + c.Size(2000, 170, 158, 184, 340)))
			st.typ = mon.Pick(c, packet.PktVideo, packet.PktAudio)
			st.h = media.Hdr{Key: c.P(50), Avc: true, IsAAC: true}
			if c.P(4) {
				st.typ = 3
			}
		}
		steps = append(steps, st)
	}
	s.make = func() (ops []op) {
		m := gots.NewMuxer()
		for _, st := range steps {
			st := st
			switch st.kind {
			case 0:
				ops = append(ops, op{"PAT", func() string { return data(m.PAT()) }, nil})
			case 1:
				ops = append(ops, op{"PMT", func() string { return data(m.PMT(packet.PktVideo, packet.PktAudio)) }, nil})
			case 2:
				ops = append(ops, op{"SDT", func() string {
					d := table.NewDescriptor()
					err := d.Service(1, st.a, st.b)
					before := data(d.GetBuffer().Bytes())
					out := class(err) + data(m.SDT(d.GetBuffer()))
					if now := data(d.GetBuffer().Bytes()); now != before {
						out += " and the description " + before + " became " + now
					}
					return out
				}, nil})
			default:
				h := st.h
				p := &packet.Packet{Type: st.typ, Header: &h, Media: st.g.S}
				ops = append(ops, op{"Mux", intact(p, func() string {
					var w bytes.Buffer
					err := m.Mux(p, st.dts, st.pts, &w)
					return class(err) + data(w.Bytes())
				}), []*kit.Guarded{st.g}})
			}
		}
		return
	}
}

func tsMixer(c *mon.C, s *script) {
	type step struct {
		kind    int
		pk      *parcel
		keep    bool
		ts, off uint32
		md      goamf.Object
	}
	var steps []step
	var sent []int
	add := func(st step) { steps = append(steps, st) }
	// by finding K10 a packet is used only once to save a sequence header
	save := func(typ int, b []byte) *parcel {
		return &parcel{typ: typ, g: s.guard(b), playing: true}
	}
	if c.P(80) {
		add(step{kind: 1, pk: save(packet.PktVideo, avcHeader(c))})
		add(step{kind: 2, pk: save(packet.PktAudio, media.AACTag(0, media.NewASC(c).Record))})
	}
	t := c.Uint32() >> 1
	for n := c.Range(3, 12); n > 0; n-- {
		t += uint32(c.N(60))
		st := step{kind: c.N(12), ts: t, off: uint32(int32(c.Range(-200, 200)))}
		switch st.kind {
		case 0:
			st.md = goamf.Object{"Provider": string(c.Bytes(c.N(20))), "Service": string(c.Bytes(c.N(20))), "n": 1.5}
			s.vals = append(s.vals, st.md)
		case 1:
			st.pk = save(packet.PktVideo, avcHeader(c))
		case 2:
			st.pk = save(packet.PktAudio, media.AACTag(0, media.NewASC(c).Record))
		case 3, 4:
		default:
			if len(sent) > 0 && c.P(30) { // a packet once more
				st.pk = steps[sent[c.N(len(sent))]].pk
				for i := range steps {
					if steps[i].pk == st.pk {
						steps[i].keep = true
					}
				}
			} else {
				typ, b := body(c)
				st.pk = s.parcel(c, typ, s.guard(b), c.Uint32(), true)
			}
			sent = append(sent, len(steps))
		}
		add(st)
	}
	add(step{kind: 4})
	s.make = func() (ops []op) {
		w := &bytes.Buffer{}
		m := gots.NewMixer(w)
		run := func(f func() error) func() string {
			return func() string {
				to, at := w, w.Len()
				err := f()
				return class(err) + data(to.Bytes()[at:])
			}
		}
		for _, st := range steps {
			st := st
			var done []*kit.Guarded
			var p *packet.Packet
			if st.pk != nil {
				p = st.pk.packet()
				if !st.keep {
					done = []*kit.Guarded{st.pk.g}
				}
			}
			switch st.kind {
			case 0:
				ops = append(ops, op{"SaveMetadata", run(func() error { return m.SaveMetadata(st.md) }), nil})
			case 1:
				ops = append(ops, op{"SaveAVCHeader", saved(p, run(func() error { return m.SaveAVCHeader(p) })), done})
			case 2:
				ops = append(ops, op{"SaveAACHeader", saved(p, run(func() error { return m.SaveAACHeader(p) })), done})
			case 3:
				ops = append(ops, op{"SetWriter", run(func() error { w = &bytes.Buffer{}; m.SetWriter(w); return nil }), nil})
			case 4:
				ops = append(ops, op{"SetTsHeader", run(m.SetTsHeader), nil})
			default:
				ops = append(ops, op{"Mux", intact(p, run(func() error {
					if p.Header == nil {
						return nil
					}
					if st.kind != 5 {
						_ = m.Update(p, st.ts, st.off)
					}
					return m.Mux(p)
				})), done})
			}
		}
		return
	}
}

// ---- group of pictures ----

type taker struct{ out strings.Builder }

func (t *taker) Write(p *packet.Packet) error {
	if t.out.Len() < 20000 {
		fmt.Fprintf(&t.out, "%d@%d %s %s;", p.Type, p.TimeStamp, data(p.Data), header(p.Header))
	}
	return nil
}

func gopCache(c *mon.C, s *script) {
	type step struct {
		typ int
		g   *kit.Guarded
		ts  uint32
	}
	var steps []step
	limit := c.N(4)
	for n := c.Range(3, 25); n > 0; n-- {
		st := step{ts: c.Uint32()}
		switch c.N(9) {
		case 0:
			st.typ, st.g = packet.PktVideo, s.guard(avcHeader(c))
		case 1:
			st.typ, st.g = packet.PktAudio, s.guard(media.AACTag(0, media.NewASC(c).Record))
		case 2:
			st.typ, st.g = packet.PktMetadata, s.guard(amf.Value0(c, true))
		case 3:
			st.typ = -1
		case 4, 5:
			st.typ, st.g = packet.PktVideo, s.guard(media.VideoTag(true, 1, 0, c.Bytes(20)))
		case 6:
			st.typ, st.g = packet.PktAudio, s.guard(media.AACTag(1, c.Bytes(20)))
		default:
			st.typ, st.g = packet.PktVideo, s.guard(media.VideoTag(false, 1, 0, c.Bytes(20)))
		}
		steps = append(steps, st)
	}
	s.make = func() (ops []op) {
		cache := gogop.NewCache(limit)
		replay := op{"SendTo", func() string {
			t := &taker{}
			err := cache.SendTo(t)
			return class(err) + t.out.String()
		}, nil}
		for _, st := range steps {
			if st.typ < 0 {
				ops = append(ops, replay)
				continue
			}
			p := &packet.Packet{Type: st.typ, TimeStamp: st.ts, Data: st.g.S}
			if st.typ != packet.PktMetadata {
				_ = goflv.NewDemuxer().Demux(p)
			}
			ops = append(ops, op{"Write", intact(p, func() string { return class(cache.Write(p)) }), nil})
		}
		return append(ops, replay)
	}
}

// ---- SIP ----

func sipMessages(c *mon.C, s *script) {
	type step struct {
		kind        int
		g           *kit.Guarded
		names, vals []string
		start       string
		code        int
		cut         bool
	}
	var steps []step
	for n := c.Range(2, 6); n > 0; n-- {
		st := step{kind: c.N(4)}
		switch st.kind {
		case 0, 1:
			b := sips.Message(c)
			if c.P(20) {
				b = sips.Hostile(c)
			}
			if len(b) > 20000 {
				b = b[:20000]
			}
			st.cut = c.P(30)
			st.g = s.guard(b)
		default:
			st.names, st.vals = sips.Fields(c)
			st.g = s.guard(sips.Body(c))
			st.start, st.code = sips.URIText(c), c.Range(100, 699)
		}
		steps = append(steps, st)
	}
	s.make = func() (ops []op) {
		k := &kept{}
		for _, st := range steps {
			st := st
			var m *gosips.SIP
			look := func() string {
				if m == nil {
					return "none"
				}
				return show(*m)
			}
			switch st.kind {
			case 0, 1:
				m = gosips.NewSIP()
				ops = append(ops, op{"parse", func() string {
					var err error
					if st.cut {
						r := kit.NewReader(st.g.S)
						r.Next = func(int) int { return 7 }
						err = m.Parse(bufio.NewReader(r))
					} else {
						err = m.ParseBytes(st.g.S)
					}
					return class(err) + look()
				}, []*kit.Guarded{st.g}})
			default:
				ops = append(ops, op{"make", func() string {
					h := gosips.NewSIPHeader()
					for i, n := range st.names {
						h[n] = append(h[n], st.vals[i])
					}
					if st.kind == 2 {
						m = gosips.MakeRequest(gosips.SIPMethodInvite, gosips.NewSIPRequest(st.start), h, st.g.S)
					} else {
						m = gosips.MakeResponse(gosips.SIPStatus(st.code), h, st.g.S)
					}
					return look()
				}, nil})
			}
			ops = append(ops, op{"write", func() string {
				if m.Request == nil && !m.IsResponse {
					return "no request"
				}
				b := m.Bytes()
				return bag(b) + lines(b)
			}, nil}, op{"look", func() string {
				if m != nil {
					k.keep(m)
				}
				return look()
			}, nil})
		}
		return append(ops, k.op())
	}
}

// lines observes the lines of a message in any order and with their bytes in
// any order, for parameters have none.
func lines(b []byte) string {
	var l []string
	for _, p := range bytes.Split(b, []byte("\r\n")) {
		l = append(l, bag(p))
	}
	sort.Strings(l)
	return data([]byte(strings.Join(l, "|")))
}

func sipValues(c *mon.C, s *script) {
	type step struct {
		kind int
		text string
	}
	var steps []step
	for n := c.Range(3, 10); n > 0; n-- {
		st := step{kind: c.N(8)}
		switch st.kind {
		case 0, 1:
			st.text = sips.AddressText(c)
		case 2:
			st.text = sips.URIText(c)
		case 3:
			st.text = sips.ViaText(c)
		case 4:
			st.text = sips.CseqText(c)
		case 5:
			st.text = "Digest username=\"bob\", realm=\"" + sips.MethodText(c) + "\", nonce=\"n,1\", uri=\"sip:a\", response=\"00\""
		case 6:
			st.text = sips.ParamText(c)
		default:
			st.text = sips.MethodText(c)
		}
		steps = append(steps, st)
	}
	s.make = func() (ops []op) {
		k := &kept{}
		for _, st := range steps {
			st := st
			ops = append(ops, op{fmt.Sprint("value ", st.kind), func() string {
				var v interface{}
				out := ""
				switch st.kind {
				case 0:
					u := gosips.NewSIPUser(st.text)
					v, out = u, bag(u.Bytes())
				case 1:
					u := gosips.NewSIPUser(st.text)
					r := u.ToRequest()
					v, out = r, bag(r.Bytes())
				case 2:
					r := gosips.NewSIPRequest(st.text)
					v, out = r, bag(r.Bytes())+show(r.ToUser())
				case 3:
					u := gosips.NewSIPVia(st.text)
					v, out = u, bag(u.Bytes())
				case 4:
					u := gosips.NewSIPCseq(st.text)
					v, out = u, bag(u.Bytes())
				case 5:
					v = gosips.NewSIPAuth(st.text)
				case 6:
					a := gosips.ParseArgs(st.text)
					v, out = a, bag([]byte(a.SemicolonString()))+bag([]byte(a.CommaString()))+bag([]byte(a.CRLFString()))
				default:
					m, err := gosips.GetSIPMethod(st.text)
					v, out = m, class(err)+m.String()
				}
				k.keep(v)
				return show(v) + out
			}, nil})
		}
		return append(ops, k.op())
	}
}

// sipHeaders drives two header maps; what was got from them is kept while they
// change.
func sipHeaders(c *mon.C, s *script) {
	type step struct {
		kind, on    int
		name, value string
		n           int
	}
	names := []string{"subject", "via", "Call-ID", "x-a", "Content-Length", "l", "s", "expires", "contact"}
	var steps []step
	for n := c.Range(3, 20); n > 0; n-- {
		_, vals := sips.Fields(c)
		st := step{kind: c.N(9), on: c.N(2), name: mon.Pick(c, names...), n: c.N(1000)}
		if len(vals) > 0 {
			st.value = vals[0]
		}
		steps = append(steps, st)
	}
	s.make = func() (ops []op) {
		k := &kept{}
		h := [2]gosips.SIPHeader{gosips.NewSIPHeader(), gosips.NewSIPHeader()}
		for _, st := range steps {
			st := st
			ops = append(ops, op{fmt.Sprint("header ", st.kind), func() string {
				m := h[st.on]
				switch st.kind {
				case 0, 1:
					m.SetFirstHeader(st.name, st.value)
				case 2, 3:
					got := m.GetHeader(st.name)
					k.keep(got)
					return show(got)
				case 4:
					m.CopyFrom(h[1-st.on], st.name)
				case 5:
					m.SetContentLength(st.n)
				case 6:
					p := gosips.NewSIP()
					p.SetHeader(m)
					p.ParseHeader([]byte(st.name + ": " + st.value))
				case 7:
					b := m.Bytes()
					return bag(b) + lines(b)
				default:
					u := m.GetSIPContact()
					v := m.GetSIPVia()
					k.keep(u)
					k.keep(v)
					return m.GetFirstHeader(st.name) + show(u) + show(v)
				}
				return show(m)
			}, nil})
		}
		return append(ops, k.op())
	}
}

func descriptor(c *mon.C, s *script) {
	type step struct {
		kind int
		a, b string
		n    uint32
	}
	var steps []step
	for n := c.Range(1, 8); n > 0; n-- {
		steps = append(steps, step{c.N(3), string(c.Bytes(c.Size(140))), string(c.Bytes(c.Size(140))), c.Uint32()})
	}
	s.make = func() (ops []op) {
		d := table.NewDescriptor()
		for _, st := range steps {
			st := st
			ops = append(ops, op{"descriptor", func() string {
				var err error
				switch st.kind {
				case 0:
					err = d.Service(byte(st.n), st.a, st.b)
				case 1:
					err = d.NetworkName(st.a)
				default:
					err = d.CountryAvailability(st.n&1 == 1, st.n>>1)
				}
				return class(err) + data(d.GetBuffer().Bytes())
			}, nil})
		}
		return
	}
}
