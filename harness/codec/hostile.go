package codec

import (
	"bytes"
	"math/rand/v2"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"

	vamf "verif/amf"
	"verif/media"
	"verif/mon"
)

// rig is one set of converters.
type rig struct {
	parse *parser.CodecParser
	fm    *flv.Mixer
	fw    *bytes.Buffer
	tm    *ts.Mixer
	tw    *bytes.Buffer
}

func newRig() *rig {
	r := &rig{parse: parser.NewCodecParser(), fw: &bytes.Buffer{}, tw: &bytes.Buffer{}}
	r.fm, r.tm = flv.NewMixer(r.fw), ts.NewMixer(r.tw)
	return r
}

// Hostile generates packet data: valid, mutated or random.
func Hostile(c *mon.C) (typ int, data []byte) {
	switch c.N(10) {
	case 0:
		typ, data = packet.PktVideo, media.VideoTag(true, 0, 0, media.NewConfigLen(c, mon.Pick(c, 4, 4, 4, 2, 1)).Record)
	case 1, 2, 3:
		au, _, _ := media.AU(c, media.AUOptions{IDR: 50, Sets: 15, Bad: 20, Small: c.P(90), Len: mon.Pick(c, 4, 4, 4, 2, 1)})
		typ, data = packet.PktVideo, media.VideoTag(c.P(50), 1, int32(c.N(1<<24)), au)
	case 4:
		typ, data = packet.PktAudio, media.AACTag(0, media.NewASC(c).Record)
	case 5, 6:
		typ, data = packet.PktAudio, media.AACTag(1, c.Bytes(c.Size(600, 8184)))
	case 7:
		typ, data = packet.PktAudio, media.MP3Tag(media.MP3(c, c.N(4)))
	case 8:
		typ, data = packet.PktMetadata, append(vamf.Value0(c, true), vamf.Value0(c, false)...)
		if c.P(50) {
			data = append([]byte{2, 0, 13}, append([]byte("@setDataFrame"), data...)...)
		}
	default:
		typ, data = c.N(4)-c.N(2), c.Bytes(c.Size(400))
	}
	if c.P(35) && len(data) > 0 { // mutate
		for k := c.Range(1, 4); k > 0 && len(data) > 0; k-- {
			switch c.N(5) {
			case 0:
				data[c.N(len(data))] = byte(c.N(256))
			case 1:
				data[c.N(min(len(data), 16))] ^= 1 << c.N(8)
			case 2:
				data = data[:c.N(len(data)+1)]
			case 3:
				i := c.N(len(data))
				data = append(data[:i:i], append(c.Bytes(c.Range(1, 6)), data[i:]...)...)
			default:
				i := c.N(len(data))
				copy(data[i:], mon.Pick(c, []byte{255, 255, 255, 255}, []byte{0, 0, 0, 0}, []byte{0x7f, 255, 255, 255}, []byte{0x80, 0, 0, 0}, []byte{0, 0, 0, 1}))
			}
		}
	}
	if c.P(8) {
		typ = mon.Pick(c, 0, 1, 2, 3, -1, 9)
	}
	return
}

func clone(p *packet.Packet) *packet.Packet {
	q := *p
	if p.Data != nil {
		q.Data = append([]byte{}, p.Data...)
	}
	return &q
}

func hostile(c *mon.C) {
	a, b := newRig(), newRig()
	total := 0
	var ops []byte
	steps := c.Steps(1, 14)
	if _, ok := c.Directed(); ok {
		steps = 4000
	}
	mark := func(s string) { c.Event(s); ops = append(ops, s[0], s[len(s)-1]) }
	for i := 0; i < steps; i++ {
		typ, data := Hostile(c)
		p := &packet.Packet{Type: typ, Data: data}
		total += len(data)
		c.Note("packet type %d data %s", typ, mon.Hex(data))
		c.Event("packets")
		bound := 3*len(data) + 2*total + 64

		pa, pb := clone(p), clone(p)
		var demuxErr error
		c.Try("Demux", func() { demuxErr = flv.NewDemuxer().Demux(pa) })
		if demuxErr != nil {
			mark("rejected by demuxer")
		} else if err := flv.NewDemuxer().Demux(pb); err != nil {
			c.Fail("tag parsing gives different results for the same bytes: %v", err)
		}

		// codec parser
		var oa, ob bytes.Buffer
		var err error
		c.Try("Parse", func() { err = a.parse.Parse(pa, &oa) })
		if oa.Len() > bound {
			c.Fail("codec parsing wrote %d bytes for %d bytes of data (%d submitted in all)", oa.Len(), len(data), total)
		}
		if err != nil {
			mark("rejected by parser")
		} else {
			if err := b.parse.Parse(pb, &ob); err != nil {
				c.Fail("packet accepted after rejected ones is refused without them: %v", err)
			}
			if !bytes.Equal(oa.Bytes(), ob.Bytes()) {
				c.Fail("conversion differs after rejected packets: %s", mon.Diff(oa.Bytes(), ob.Bytes()))
			}
			c.Event("twin outputs compared")
			ops = append(ops, 'a')
		}
		ra, ea := a.parse.SampleRate()
		rb, eb := b.parse.SampleRate()
		if ra != rb || (ea == nil) != (eb == nil) {
			c.Fail("sample rate after rejected packets = %d, %v; without them %d, %v", ra, ea, rb, eb)
		}

		// FLV
		pa, pb = clone(p), clone(p)
		when := c.Uint32()
		n := a.fw.Len()
		act := c.N(6)
		fl := func(r *rig, p *packet.Packet) error {
			switch act {
			case 0:
				return r.fm.SaveAVCHeader(p)
			case 1:
				return r.fm.SaveAACHeader(p)
			case 2:
				if err := r.fm.SetFlvHeader(); err != nil {
					return err
				}
			}
			return r.fm.Mux(p, when)
		}
		c.Try("FLV muxing", func() { err = fl(a, pa) })
		if act == 2 || err == nil {
			if e2 := fl(b, pb); (e2 == nil) != (err == nil) {
				c.Fail("FLV muxing with and without rejected packets: %v and %v", err, e2)
			}
		}
		if err != nil {
			mark("rejected by flv")
		}
		if a.fw.Len()-n > bound+200 {
			c.Fail("FLV muxing wrote %d bytes for %d bytes of data", a.fw.Len()-n, len(data))
		}
		if !bytes.Equal(a.fw.Bytes(), b.fw.Bytes()) {
			c.Fail("FLV output after rejected packets: %s", mon.Diff(a.fw.Bytes(), b.fw.Bytes()))
		}
		c.Event("twin outputs compared")

		// TS
		pa, pb = clone(p), clone(p)
		n = a.tw.Len()
		act = c.N(8)
		ct := c.Uint32()
		if c.P(20) {
			var e1, e2 error
			obj, ok := badMeta(c), false
			c.Try("SaveMetadata", func() { e1 = a.tm.SaveMetadata(obj) })
			ok = e1 == nil
			if ok {
				e2 = b.tm.SaveMetadata(obj)
			}
			if e2 != nil {
				c.Fail("SaveMetadata with and without rejected packets: %v and %v", e1, e2)
			}
		}
		if c.P(20) {
			c.Try("SetTsHeader", func() { _ = a.tm.SetTsHeader() })
			_ = b.tm.SetTsHeader()
		}
		flv.NewDemuxer().Demux(pa)
		flv.NewDemuxer().Demux(pb)
		if p.Type == packet.PktVideo || p.Type == packet.PktAudio {
			var u1 error
			c.Try("Update", func() { u1 = a.tm.Update(pa, when, ct) })
			if u2 := b.tm.Update(pb, when, ct); (u1 == nil) != (u2 == nil) {
				c.Fail("Update with and without rejected packets: %v and %v", u1, u2)
			}
		}
		tl := func(r *rig, p *packet.Packet) error {
			switch act {
			case 0:
				return r.tm.SaveAVCHeader(p)
			case 1:
				return r.tm.SaveAACHeader(p)
			}
			return r.tm.Mux(p)
		}
		c.Try("TS muxing", func() { err = tl(a, pa) })
		if err == nil {
			if e2 := tl(b, pb); e2 != nil {
				c.Fail("TS muxing refused without the rejected packets only: %v", e2)
			}
		} else {
			mark("rejected by ts")
		}
		if a.tw.Len()-n > 2*bound+188*6 {
			c.Fail("TS muxing wrote %d bytes for %d bytes of data", a.tw.Len()-n, len(data))
		}
		if !bytes.Equal(a.tw.Bytes(), b.tw.Bytes()) {
			c.Fail("TS output after rejected packets: %s", mon.Diff(a.tw.Bytes(), b.tw.Bytes()))
		}
		c.Event("twin outputs compared")
		if steps > 100 { // keep the comparison cheap
			a.fw.Reset()
			b.fw.Reset()
			a.tw.Reset()
			b.tw.Reset()
		}
	}
	c.Shape(ops)
	c.Sample("%d packets, %d bytes, outcomes %q", steps, total, ops)
}

func badMeta(c *mon.C) amf.Object {
	m := amf.Object{}
	r := rand.New(rand.NewPCG(c.Uint64(), 1))
	name := func() interface{} {
		switch r.IntN(6) {
		case 0:
			return nil
		case 1:
			return 3.5
		case 2:
			return amf.Object{"x": nil}
		}
		n := r.IntN(90)
		if r.IntN(4) == 0 {
			n = []int{0, 79, 80, 163, 160, 252, 253, 255, 256, 300}[r.IntN(10)]
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		return string(b)
	}
	for _, k := range []string{"Provider", "Service", "provider", "x"} {
		if r.IntN(3) > 0 {
			m[k] = name()
		}
	}
	return m
}
