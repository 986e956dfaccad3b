package cross

import (
	"bytes"
	"fmt"
	"io"

	goamf "github.com/moggle-mog/goav/amf"
	goflv "github.com/moggle-mog/goav/container/flv"
	gots "github.com/moggle-mog/goav/container/ts"
	gogop "github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"
	"github.com/moggle-mog/goav/parser/aac"
	"github.com/moggle-mog/goav/parser/h264"

	"verif/amf"
	"verif/kit"
	"verif/media"
	"verif/mon"
)

// target is one operation that writes. fresh sets a new instance up and
// returns the operation; again tells that the operation can be repeated on the
// same instance with the same output.
type target struct {
	name  string
	fixed bool
	again bool
	fresh func() func(w io.Writer) error
}

var writers = []struct {
	name string
	gen  func(c *mon.C) target
}{
	{"amf0 Encode", func(c *mon.C) target { return encoder(c, false) }},
	{"amf3 Encode", func(c *mon.C) target { return encoder(c, true) }},
	{"amf EncodeBatch", batch},
	{"amf0 special", special},
	{"flv Mux", flvMux},
	{"flv SetFlvHeader", flvHeader},
	{"ts Muxer.Mux", tsMux},
	{"ts Mixer.Mux", tsMixerMux},
	{"ts SetTsHeader", tsHeader},
	{"CodecParser.Parse", codecParse},
	{"h264 Parse", h264Parse},
	{"aac Parse", aacParse},
	{"gop SendTo", sendTo},
}

func eachWriter(prefix string) (n []string) {
	for _, k := range writers {
		n = append(n, prefix+k.name)
	}
	return
}

func encoder(c *mon.C, amf3 bool) target {
	v := amf.GoValue(c, amf3, mon.Pick(c, 1, 4, 10, 25))
	return target{"", !amf.Multi(v), true, func() func(io.Writer) error {
		e := amf.NewCodec(amf3)
		return func(w io.Writer) error {
			n, err := e.Encode(w, v)
			if err == nil && n < 1 {
				return fmt.Errorf("%d bytes and no error", n)
			}
			return err
		}
	}}
}

func batch(c *mon.C) target {
	amf3 := c.P(50)
	var vs []interface{}
	fixed := true
	for k := c.Range(1, 4); k > 0; k-- {
		v := amf.GoValue(c, amf3, mon.Pick(c, 1, 4, 10))
		vs, fixed = append(vs, v), fixed && !amf.Multi(v)
	}
	return target{"", fixed, true, func() func(io.Writer) error {
		e := amf.NewCodec(amf3)
		return func(w io.Writer) error { return e.EncodeBatch(w, vs...) }
	}}
}

func special(c *mon.C) target {
	v := amf.GoValue(c, true, mon.Pick(c, 1, 5))
	o := amf.GoObject(c, false, 6)
	str := string(c.Bytes(c.Size(300)))
	k := c.N(6)
	return target{fmt.Sprint(k), !amf.Multi(v) && !amf.Multi(o), true, func() func(io.Writer) error {
		ed := goamf.NewEnDecAMF0()
		return func(w io.Writer) (err error) {
			switch k {
			case 0:
				_, err = ed.EncodeWithAMF3(w, v)
			case 1:
				_, err = ed.EncodeXmlDocument(w, str)
			case 2:
				_, err = ed.EncodeReference(w, 7)
			case 3:
				_, err = ed.EncodeEcmaArray(w, o)
			case 4:
				_, err = ed.EncodeUndefined(w)
			default:
				_, err = ed.EncodeUnsupported(w)
			}
			return err
		}
	}}
}

func flvMux(c *mon.C) target {
	typ, b := body(c)
	switch {
	case typ < packet.PktVideo || typ > packet.PktMetadata:
		typ = packet.PktVideo
	case typ == packet.PktMetadata:
		b = append(amf.Value0(c, true), amf.Value0(c, false)...)
		if c.P(50) {
			b = append([]byte("\x02\x00\x0d@setDataFrame"), b...)
		}
	}
	t := c.Uint32()
	return target{fmt.Sprint(typ), true, true, func() func(io.Writer) error {
		m := goflv.NewMixer(io.Discard)
		return func(w io.Writer) error {
			m.SetWriter(w)
			return m.Mux(&packet.Packet{Type: typ, Data: append([]byte(nil), b...)}, t)
		}
	}}
}

func flvHeader(c *mon.C) target {
	var md goamf.Object
	if c.P(70) {
		md = amf.GoObject(c, false, 4)
	}
	avc, asc := avcHeader(c), media.AACTag(0, media.NewASC(c).Record)
	v, a := c.P(70), c.P(70)
	if !v && !a {
		v = true // nothing saved is an error of its own
	}
	return target{fmt.Sprint(md != nil, v, a), !amf.Multi(md), true, func() func(io.Writer) error {
		m := goflv.NewMixer(io.Discard)
		if md != nil {
			must(m.SaveMetadata(md))
		}
		if v {
			must(m.SaveAVCHeader(media.Video(append([]byte(nil), avc...))))
		}
		if a {
			must(m.SaveAACHeader(media.Audio(append([]byte(nil), asc...))))
		}
		return func(w io.Writer) error {
			m.SetWriter(w)
			return m.SetFlvHeader()
		}
	}}
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("setting up: %v", err))
	}
}

func tsMux(c *mon.C) target {
	typ := mon.Pick(c, packet.PktVideo, packet.PktAudio)
	h := media.Hdr{Key: c.P(50), Avc: true, IsAAC: true}
	b := c.Bytes(1 + c.Size(mon.Pick(c, 400, 4000, 40000), 170, 158, 184, 340))
	dts := int64(c.Uint64() >> 31)
	pts := dts + int64(c.N(9000))
	return target{fmt.Sprint(typ, h.Key), true, false, func() func(io.Writer) error {
		m := gots.NewMuxer()
		return func(w io.Writer) error {
			hh := h
			return m.Mux(&packet.Packet{Type: typ, Header: &hh, Media: append([]byte(nil), b...)}, dts, pts, w)
		}
	}}
}

func demuxed(typ int, b []byte) *packet.Packet {
	p := &packet.Packet{Type: typ, Data: append([]byte(nil), b...)}
	must(goflv.NewDemuxer().Demux(p))
	return p
}

// good generates a tag body every codec parser accepts after its headers.
func good(c *mon.C, mp3 bool) (int, []byte) {
	if mp3 && c.P(20) {
		return packet.PktAudio, media.MP3Tag(media.MP3(c, c.N(2)))
	}
	if c.P(60) {
		au, _, _ := media.AU(c, media.AUOptions{IDR: 60, Sets: 15, Small: c.P(90)})
		return packet.PktVideo, media.VideoTag(c.P(50), 1, 0, au)
	}
	return packet.PktAudio, media.AACTag(1, c.Bytes(1+c.Size(1000, 170, 350)))
}

func tsMixerMux(c *mon.C) target {
	typ, b := good(c, false)
	avc, asc := avcHeader(c), media.AACTag(0, media.NewASC(c).Record)
	t := c.Uint32()
	return target{fmt.Sprint(typ), true, false, func() func(io.Writer) error {
		m := gots.NewMixer(io.Discard)
		must(m.SaveAVCHeader(demuxed(packet.PktVideo, avc)))
		must(m.SaveAACHeader(demuxed(packet.PktAudio, asc)))
		p := demuxed(typ, b)
		must(m.Update(p, t, 0))
		return func(w io.Writer) error {
			m.SetWriter(w)
			return m.Mux(p)
		}
	}}
}

func tsHeader(c *mon.C) target {
	md := goamf.Object{"Provider": string(c.Bytes(c.N(40))), "Service": string(c.Bytes(c.N(40)))}
	avc, asc := avcHeader(c), media.AACTag(0, media.NewASC(c).Record)
	v, a, d := c.P(60), c.P(60), c.P(60)
	return target{fmt.Sprint(v, a, d), true, false, func() func(io.Writer) error {
		m := gots.NewMixer(io.Discard)
		if v {
			must(m.SaveAVCHeader(demuxed(packet.PktVideo, avc)))
		}
		if a {
			must(m.SaveAACHeader(demuxed(packet.PktAudio, asc)))
		}
		if d {
			must(m.SaveMetadata(md))
		}
		return func(w io.Writer) error {
			m.SetWriter(w)
			return m.SetTsHeader()
		}
	}}
}

func codecParse(c *mon.C) target {
	typ, b := good(c, false)
	avc, asc := avcHeader(c), media.AACTag(0, media.NewASC(c).Record)
	return target{fmt.Sprint(typ), true, true, func() func(io.Writer) error {
		p := parser.NewCodecParser()
		var sink bytes.Buffer
		must(p.Parse(demuxed(packet.PktVideo, avc), &sink))
		must(p.Parse(demuxed(packet.PktAudio, asc), &sink))
		return func(w io.Writer) error { return p.Parse(demuxed(typ, b), w) }
	}}
}

func h264Parse(c *mon.C) target {
	rec := media.NewConfig(c).Record
	au, _, _ := media.AU(c, media.AUOptions{IDR: 60, Sets: 15, Small: c.P(90)})
	annexB := c.P(15)
	if annexB {
		au = append([]byte{0, 0, 0, 1}, c.Bytes(c.Size(300))...)
	}
	return target{fmt.Sprint(annexB), true, true, func() func(io.Writer) error {
		p := h264.NewParser()
		var sink bytes.Buffer
		must(p.Parse(rec, true, &sink))
		return func(w io.Writer) error { return p.Parse(append([]byte(nil), au...), false, w) }
	}}
}

func aacParse(c *mon.C) target {
	rec := media.NewASC(c).Record
	b := c.Bytes(1 + c.Size(8000))
	return target{"", true, true, func() func(io.Writer) error {
		p := aac.NewParser()
		var sink bytes.Buffer
		must(p.Parse(rec, 0, &sink))
		return func(w io.Writer) error { return p.Parse(append([]byte(nil), b...), 1, w) }
	}}
}

// packets turns a packet writer into a byte writer, one write a packet.
type packets struct{ w io.Writer }

func (p packets) Write(q *packet.Packet) error {
	_, err := p.w.Write([]byte(fmt.Sprintf("%d@%d;", q.Type, q.TimeStamp)))
	return err
}

func sendTo(c *mon.C) target {
	limit := c.Range(0, 3)
	var what []int
	for n := c.N(30); n >= 0; n-- {
		what = append(what, c.N(6))
	}
	return target{"", true, true, func() func(io.Writer) error {
		g := gogop.NewCache(limit)
		for i, k := range what {
			p := &packet.Packet{Type: packet.PktVideo, TimeStamp: uint32(i), Data: []byte{1}}
			switch k {
			case 0:
				p.Header = &media.Hdr{Key: true, Seq: true, Avc: true}
			case 1:
				p.Type, p.Header = packet.PktAudio, &media.Hdr{IsAAC: true, AACSeq: true}
			case 2:
				p.Type = packet.PktMetadata
			case 3:
				p.Header = &media.Hdr{Key: true, Avc: true}
			default:
				p.Header = &media.Hdr{Inter: true, Avc: true}
			}
			_ = g.Write(p) // inter frames before a key frame are refused
		}
		return func(w io.Writer) error { return g.SendTo(packets{w}) }
	}}
}

func faulty(c *mon.C) {
	k := c.N(len(writers))
	if c.I < 4*len(writers) {
		k = c.I % len(writers)
	}
	name := writers[k].name
	t := writers[k].gen(c)
	c.Note("%s %s", name, t.name)
	var f func(io.Writer) error
	c.Try(name, func() { f = t.fresh() })
	ref := kit.NewWriter()
	var err error
	c.Try(name, func() { err = f(ref) })
	if err != nil {
		c.Fail("%s: %v without any fault", name, err)
	}
	want := ref.Buf.Bytes()
	n := ref.Calls
	if n == 0 {
		c.Skip("nothing written")
	}
	// a second run without faults writes the same
	second := kit.NewWriter()
	c.Try(name, func() { err = t.fresh()(second) })
	if err != nil || second.Buf.Len() != len(want) || t.fixed && !bytes.Equal(second.Buf.Bytes(), want) {
		c.Fail("%s: run again without faults: %v, %s", name, err, mon.Diff(second.Buf.Bytes(), want))
	}
	var at []int
	for i := 0; i < n; i++ {
		if n <= 60 || i < 30 || i >= n-10 {
			at = append(at, i)
		}
	}
	if n > 60 {
		for i := 0; i < 20; i++ {
			at = append(at, c.Range(30, n-11))
		}
	} else {
		c.Event("operations with every write failed once")
	}
	for _, i := range at {
		w := kit.NewWriter()
		w.FailAt = i
		switch c.N(4) {
		case 0:
			w.Partial = 1 << 30
		case 1:
			w.Partial = c.N(8)
		case 2:
			w.Whole = true
		}
		var f func(io.Writer) error
		c.Try(name, func() { f = t.fresh() })
		c.Try(name, func() { err = f(w) })
		if !w.Failed() {
			if t.fixed {
				c.Fail("%s: write %d of %d was never made (%d made)", name, i, n, w.Calls)
			}
			continue // another order of the keys, fewer writes
		}
		if err == nil {
			c.Fail("%s: write %d of %d failed and no error was returned; %d bytes of %d written", name, i, n, w.Buf.Len(), len(want))
		}
		if w.After != 0 {
			c.Fail("%s: %d writes after write %d of %d failed", name, w.After, i, n)
		}
		if got := w.Buf.Bytes(); t.fixed && !bytes.HasPrefix(want, got) {
			c.Fail("%s: write %d of %d failed, what was written is no prefix: %s", name, i, n, mon.Diff(got, want))
		}
		if w.Buf.Len() > len(want) {
			c.Fail("%s: write %d of %d failed, %d bytes written, %d without the fault", name, i, n, w.Buf.Len(), len(want))
		}
		c.Event("faults injected")
		c.Event("faults: " + name)
		c.Shape(name, t.name, n, i)
		if t.again && (n <= 12 || c.P(20)) {
			w2 := kit.NewWriter()
			c.Try(name, func() { err = f(w2) })
			if err != nil || w2.Buf.Len() != len(want) || t.fixed && !bytes.Equal(w2.Buf.Bytes(), want) {
				c.Fail("%s: used again after write %d of %d failed: %v, %s", name, i, n, err, mon.Diff(w2.Buf.Bytes(), want))
			}
			c.Event("operations used again after a fault")
		}
	}
	c.Sample("%s %s: %d writes, %d bytes", name, t.name, n, len(want))
}
