// Package codec monitors the H.264, AAC and MP3 parsers.
package codec

import (
	"bytes"
	"math/bits"

	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"
	"github.com/moggle-mog/goav/parser"

	"verif/kit"
	"verif/media"
	"verif/mon"
)

// Props lists the properties of this area.
func Props() []*mon.Prop {
	return []*mon.Prop{
		{ID: "P01", Level: "exploration", Quick: 500000, Thorough: 15000000, Directed: 12, Run: nalUnits,
			Rule: "histories of configurations and access units (lengths 1 to 65537, start codes inside units, malformed lengths and types, Annex-B input) on one parser, output compared byte for byte with a reference conversion; distinct by NAL type sequences and outcomes",
			Need: []string{"access units compared", "access units refused", "annex-b passed"}},
		{ID: "P02", Level: "exploration", Quick: 500000, Thorough: 15000000, Directed: 12, Run: paramSets,
			Rule: "histories of valid and malformed sequence headers and of IDR access units with and without parameter sets before or after the IDR, refused ones between; distinct by NAL type sequences and header events",
			Need: []string{"configurations replaced", "configurations refused", "sets from configuration", "sets from access unit", "caller buffers overwritten"}},
		{ID: "P03", Level: "exploration", Quick: 500000, Thorough: 15000000, Directed: 9000, Run: aac,
			Rule: "histories of valid and refused AAC configurations and frames (every length around the ADTS limit) compared with a bit-level ADTS model; distinct by object type, index, channels and length bucket",
			Need: []string{"frames compared", "frames refused", "configurations refused"}},
		{ID: "P04", Level: "exploration", Quick: 1000000, Thorough: 30000000, Directed: 16, Run: dispatch,
			Rule:   "packets of every type, codec, sound format, header kind, valid and invalid, on one parser; outcome, output and sample rate after every packet against a model; distinct by packet kind sequence",
			Assume: []string{"MP3 frames start with an MPEG-1 Layer III header; one stream carries either AAC or MP3"},
			Need:   []string{"refused", "rate compared", "rate is an error", "video dispatched", "aac dispatched", "mp3 dispatched"}},
		{ID: "P05", Level: "exploration", Quick: 400000, Thorough: 15000000, Directed: 8, Run: hostile,
			Rule: "random, mutated and hostile packets through tag parsing, codec parsing, FLV and TS muxing, in parallel with a twin that only sees the accepted packets; distinct by outcome sequence",
			Need: []string{"packets", "rejected by demuxer", "rejected by parser", "rejected by ts", "rejected by flv", "twin outputs compared"}},
	}
}

// demuxed returns the packet after tag parsing with either the real demuxer or a stand-in header.
func demuxed(c *mon.C, p *packet.Packet) {
	if err := flv.NewDemuxer().Demux(p); err != nil {
		c.Fail("Demux(%s): %v", mon.Hex(p.Data), err)
	}
}

// video is one parser with its reference.
type video struct {
	c     *mon.C
	p     *parser.CodecParser
	ref   media.AVC
	ops   []byte
	saved []*kit.Guarded
}

func (v *video) feed(body []byte, seq, key bool, what string) (out []byte, err error, g *kit.Guarded) {
	c := v.c
	var p *packet.Packet
	if c.P(50) {
		t := byte(1)
		if seq {
			t = 0
		}
		g = kit.Guard(media.VideoTag(key || seq, t, int32(c.N(1<<24)), body))
		p = media.Video(g.S)
		demuxed(c, p)
	} else {
		g = kit.Guard(body)
		p = &packet.Packet{Type: packet.PktVideo, Media: g.S, Header: &media.Hdr{Avc: true, Codec: 7, Key: key || seq, Inter: !key && !seq, Seq: seq}}
	}
	var w bytes.Buffer
	pre := c.Bytes(c.N(3))
	w.Write(pre)
	err = v.p.Parse(p, &w)
	c.Note("%s %s = %v", what, mon.Hex(body), err)
	if !bytes.HasPrefix(w.Bytes(), pre) {
		c.Fail("Parse changed bytes already written")
	}
	if s := g.Check(); s != "" {
		c.Fail("Parse(%s) changed its input: %s", what, s)
	}
	return w.Bytes()[len(pre):], err, g
}

// config gives the parser a configuration for NAL unit lengths of one of sizes.
func (v *video) config(sizes ...int) {
	c := v.c
	if len(sizes) == 0 {
		sizes = []int{4, 4, 4, 2, 1, c.Range(1, 4)}
	}
	k := media.NewConfigLen(c, sizes[c.N(len(sizes))])
	out, err, g := v.feed(k.Record, true, true, "sequence header")
	if err != nil || len(out) != 0 {
		c.Fail("valid sequence header %s: error %v, output %s", mon.Hex(k.Record), err, mon.Hex(out))
	}
	v.ref.Set(k)
	v.ops = append(v.ops, 'C', byte(k.Len))
	c.Event("configurations replaced")
	if c.P(50) {
		g.Scribble(byte(c.N(256)))
		c.Event("caller buffers overwritten")
	}
}

func (v *video) badConfig() {
	c := v.c
	b := media.BadConfig(c)
	out, err, _ := v.feed(b, true, true, "malformed sequence header")
	if err == nil {
		c.Fail("malformed sequence header accepted: %s", mon.Hex(b))
	}
	if len(out) != 0 {
		c.Fail("malformed sequence header wrote %s", mon.Hex(out))
	}
	v.ops = append(v.ops, 'M')
	c.Event("configurations refused")
}

func (v *video) unit(au []byte, kinds []byte) {
	c := v.c
	want, ok := v.ref.Convert(au)
	out, err, g := v.feed(au, false, c.P(50), "access unit")
	v.ops = append(append(v.ops, 'A'), kinds...)
	if !ok {
		v.ops = append(v.ops, 'X')
		if err == nil {
			c.Fail("bad access unit accepted: %s, output %s", mon.Hex(au), mon.Hex(out))
		}
		if !bytes.HasPrefix(want, out) {
			c.Fail("output of a refused access unit is no prefix of its conversion: %s", mon.Diff(out, want))
		}
		c.Event("access units refused")
		return
	}
	if err != nil {
		c.Fail("access unit %s refused: %v", mon.Hex(au), err)
	}
	if !bytes.Equal(out, want) {
		c.Fail("access unit %s: %s", mon.Hex(au), mon.Diff(out, want))
	}
	c.Event("access units compared")
	if bytes.IndexByte(kinds, 5) >= 0 {
		first := bytes.IndexByte(kinds, 5)
		if bytes.IndexByte(kinds[:first], 7) >= 0 || bytes.IndexByte(kinds[:first], 8) >= 0 {
			c.Event("sets from access unit")
		} else if len(v.ref.Sets) > 0 {
			c.Event("sets from configuration")
		}
	}
	if c.P(20) {
		g.Scribble(byte(c.N(256)))
	}
}

// size is the length size to write access units with, now and then not the
// one in force.
func (v *video) size() int {
	if v.c.P(3) {
		return mon.Pick(v.c, 1, 2, 4)
	}
	return v.ref.Len
}

func newVideo(c *mon.C) *video { return &video{c: c, p: parser.NewCodecParser()} }

func nalUnits(c *mon.C) {
	v := newVideo(c)
	if k, ok := c.Directed(); ok { // many or large units
		v.config(4)
		var au []byte
		switch k {
		case 0, 1, 2:
			n := []int{1000, 20000, 200000}[k]
			for i := 0; i < n; i++ {
				nal := media.NAL(c, []byte{1, 5, 6}[c.N(3)], c.Range(1, 3))
				au = append(au, 0, 0, 0, byte(len(nal)))
				au = append(au, nal...)
			}
			if au[3] == 1 {
				au[3] = 2
				au = append(au[:5:5], append([]byte{7}, au[5:]...)...)
			}
		default:
			n := []int{255, 256, 65535, 65536, 1 << 20, 1<<24 - 1, 1 << 24, 1<<24 + 1, 5000000}[k-3]
			nal := media.NAL(c, []byte{1, 5, 6}[c.N(3)], n)
			au = append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, nal...)
			if k == 11 {
				au = append(au, 0, 0, 0, 1, 0x41)
			}
		}
		v.unit(au, []byte{byte(k)})
		c.Shape("directed", k)
		return
	}
	if c.P(70) {
		v.config()
	}
	for n := c.Steps(1, 8); n > 0; n-- {
		switch {
		case c.P(10):
			size := c.Size(300)
			if c.N(400) == 0 {
				size = 65536*c.Range(1, 2) - 4 + c.Range(-1, 4)
			}
			b := append(append([]byte(nil), media.Start...), c.Bytes(size)...)
			v.unit(b, []byte{99})
			c.Event("annex-b passed")
		case c.P(4):
			v.config()
		default:
			au, _, kinds := media.AU(c, media.AUOptions{IDR: 40, Sets: 8, Bad: 25, Len: v.size()})
			v.unit(au, kinds)
		}
	}
	c.Shape(v.ops)
	c.Sample("%d operations %q", len(v.ops), v.ops)
}

func paramSets(c *mon.C) {
	v := newVideo(c)
	if k, ok := c.Directed(); ok { // set sizes around buffer sizes, and long runs
		if k&1 == 0 {
			v.config(4)
		}
		for i := 0; i < 40; i++ {
			sps, pps := media.NAL(c, 7, []int{1, 2, 2000, 2044, 2048, 4096, 65535, 70000}[c.N(8)]), media.NAL(c, 8, []int{1, 4, 2048, 65536}[c.N(4)])
			var au []byte
			add := func(n []byte) {
				l := len(n)
				au = append(append(au, byte(l>>24), byte(l>>16), byte(l>>8), byte(l)), n...)
			}
			kinds := []byte{6, 7, 8, 5, 5}
			add([]byte{6, 5, 1})
			add(sps)
			add(pps)
			if k%3 == 0 {
				kinds = []byte{6, 7, 8, 8, 5, 5}
				add(append([]byte(nil), pps...))
			}
			add(media.NAL(c, 5, 30))
			add(media.NAL(c, 5, 3))
			v.unit(au, kinds)
			v.unit([]byte{0, 0, 0, 2, 0x65, byte(i)}, []byte{5})
			if c.P(10) {
				v.badConfig()
			}
			if c.P(10) {
				v.config(4)
			}
		}
		c.Shape("directed", k)
		return
	}
	for n := c.Steps(2, 12); n > 0; n-- {
		switch c.N(8) {
		case 0, 1:
			v.config()
		case 2:
			v.badConfig()
		default:
			au, _, kinds := media.AU(c, media.AUOptions{IDR: 80, Sets: 30, Bad: 15, Small: true, Len: v.size()})
			v.unit(au, kinds)
		}
	}
	c.Shape(v.ops)
	c.Sample("%d operations %q", len(v.ops), v.ops)
}

// audio is one parser with its AAC reference.
type audio struct {
	c   *mon.C
	p   *parser.CodecParser
	cfg *media.ASC
}

func (a *audio) feed(typ byte, body []byte) ([]byte, error) {
	c := a.c
	var p *packet.Packet
	var g *kit.Guarded
	if c.P(50) {
		g = kit.Guard(media.AACTag(typ, body))
		p = media.Audio(g.S)
		demuxed(c, p)
	} else {
		g = kit.Guard(body)
		p = &packet.Packet{Type: packet.PktAudio, Media: g.S, Header: &media.Hdr{IsAAC: true, Format: 10, AAC: typ, AACSeq: typ == 0}}
	}
	var w bytes.Buffer
	err := a.p.Parse(p, &w)
	c.Note("AAC type %d %s = %v", typ, mon.Hex(body), err)
	if s := g.Check(); s != "" {
		c.Fail("Parse changed its input: %s", s)
	}
	g.Scribble(0x55)
	return w.Bytes(), err
}

func (a *audio) config() {
	c := a.c
	k := media.NewASC(c)
	out, err := a.feed(0, k.Record)
	if err != nil || len(out) != 0 {
		c.Fail("AAC configuration %x: error %v, output %s", k.Record, err, mon.Hex(out))
	}
	a.cfg = &k
}

func (a *audio) badConfig() {
	b := media.BadASC(a.c)
	out, err := a.feed(0, b)
	if err == nil || len(out) != 0 {
		a.c.Fail("invalid AAC configuration %x: error %v, output %s", b, err, mon.Hex(out))
	}
	a.c.Event("configurations refused")
}

func (a *audio) frame(n int) {
	c := a.c
	data := c.Bytes(n)
	out, err := a.feed(1, data)
	if a.cfg == nil || n == 0 || n > media.MaxADTS {
		if err == nil || len(out) != 0 {
			c.Fail("frame of %d bytes (configuration: %v) not refused: output %s", n, a.cfg != nil, mon.Hex(out))
		}
		c.Event("frames refused")
		return
	}
	if err != nil {
		c.Fail("frame of %d bytes refused: %v", n, err)
	}
	if want := a.cfg.ADTS(data); !bytes.Equal(out, want) {
		c.Fail("ADTS frame of %d bytes, configuration %+v: %s", n, *a.cfg, mon.Diff(out, want))
	}
	c.Event("frames compared")
	c.Shape(a.cfg.Object, a.cfg.Index, a.cfg.Channels, n/64)
}

func aac(c *mon.C) {
	a := &audio{c: c, p: parser.NewCodecParser()}
	if k, ok := c.Directed(); ok { // every frame length
		a.config()
		a.frame(k)
		return
	}
	for n := c.Steps(1, 10); n > 0; n-- {
		switch c.N(6) {
		case 0:
			a.config()
		case 1:
			a.badConfig()
		case 2:
			typ := mon.Pick(c, byte(2), 3, 7, 0x80, 0xff)
			b := c.Bytes(c.Range(0, 20))
			out, err := a.feed(typ, b)
			if err == nil || len(out) != 0 {
				c.Fail("AAC packet type %d not refused: output %s", typ, mon.Hex(out))
			}
		default:
			a.frame(c.Size(9000, media.MaxADTS, 1, 255, 256, 2047, 2048, 4096, 65536-7))
			if c.P(2) {
				a.frame(mon.Pick(c, 65529, 65535, 65536, 65537, 70000, 131072))
			}
		}
	}
	if a.cfg != nil {
		c.Sample("last configuration %+v (%x)", *a.cfg, a.cfg.Record)
	}
}

// rate is one hypothesis about the parser's audio rate.
type rate struct {
	alive bool
	known bool
	value int
}

func dispatch(c *mon.C) {
	p := parser.NewCodecParser()
	ref := media.AVC{}
	var asc *media.ASC
	aacStream := c.P(60) // one stream carries AAC or MP3
	spec, k1 := &rate{alive: true}, &rate{alive: true}
	var kinds []byte

	checkRate := func() {
		got, err := p.SampleRate()
		for _, r := range []*rate{spec, k1} {
			if r.known != (err == nil) || r.known && r.value != got {
				r.alive = false
			}
		}
		if !spec.alive {
			if !k1.alive {
				c.Fail("sample rate = %d, %v; want %d, known %v", got, err, spec.value, spec.known)
			}
			c.Known("K1", "sample rate = %d, %v; want %d", got, err, spec.value)
			return
		}
		c.Event("rate compared")
		if err != nil {
			c.Event("rate is an error")
		}
	}
	set := func(v int) {
		*spec = rate{spec.alive, true, v}
		*k1 = rate{k1.alive, true, v}
	}
	give := func(pk *packet.Packet, what string) ([]byte, error) {
		var w bytes.Buffer
		err := p.Parse(pk, &w)
		c.Note("%s %s = %v", what, mon.Hex(pk.Media), err)
		return w.Bytes(), err
	}
	refuse := func(pk *packet.Packet, what string) {
		out, err := give(pk, what)
		if err == nil {
			c.Fail("%s accepted", what)
		}
		if len(out) > 0 {
			c.Fail("%s wrote %s", what, mon.Hex(out))
		}
		c.Event("refused")
	}
	checkRate()
	for n := c.Steps(1, 12); n > 0; n-- {
		kind := c.N(12)
		if k, ok := c.Directed(); ok && k < 12 {
			kind = k
		}
		kinds = append(kinds, byte(kind))
		real := c.P(50)
		switch kind {
		case 0: // AVC configuration
			cfg := media.NewConfig(c)
			pk := &packet.Packet{Type: packet.PktVideo, Media: cfg.Record, Header: &media.Hdr{Avc: true, Codec: 7, Key: true, Seq: true}}
			if real {
				pk = media.Video(media.VideoTag(true, 0, 0, cfg.Record))
				demuxed(c, pk)
			}
			if out, err := give(pk, "AVC configuration"); err != nil || len(out) > 0 {
				c.Fail("AVC configuration: %v, output %s", err, mon.Hex(out))
			}
			ref.Sets = cfg.Sets
			c.Event("video dispatched")
		case 1: // AVC unit
			au, _, _ := media.AU(c, media.AUOptions{IDR: 50, Sets: 10, Bad: 20, Small: true})
			pk := &packet.Packet{Type: packet.PktVideo, Media: au, Header: &media.Hdr{Avc: true, Codec: 7, Key: c.P(50), IsAAC: c.P(50), IsMP3: c.P(50), Format: 2, AACSeq: c.P(50)}}
			if real {
				pk = media.Video(media.VideoTag(c.P(50), 1, 5, au))
				demuxed(c, pk)
			}
			want, ok := ref.Convert(au)
			out, err := give(pk, "AVC unit")
			if ok != (err == nil) || ok && !bytes.Equal(out, want) {
				c.Fail("AVC unit: error %v, %s", err, mon.Diff(out, want))
			}
			c.Event("video dispatched")
		case 2: // other video codec
			codec := mon.Pick(c, uint8(0), 1, 2, 3, 4, 5, 6, 8, 12, 15)
			body := c.Bytes(c.Range(0, 40))
			if c.P(50) {
				body = media.NewConfig(c).Record
			}
			pk := &packet.Packet{Type: packet.PktVideo, Media: body, Header: &media.Hdr{Codec: codec, Key: c.P(50), Seq: c.P(30), IsAAC: c.P(50), IsMP3: c.P(50), Format: 10}}
			if real {
				pk = media.Video(append([]byte{byte(c.Range(1, 2))<<4 | codec, byte(c.N(3)), 0, 0, 0}, body...))
				demuxed(c, pk)
			}
			refuse(pk, "video codec other than AVC")
		case 3: // AAC configuration
			if !aacStream {
				continue
			}
			a := media.NewASC(c)
			pk := &packet.Packet{Type: packet.PktAudio, Media: a.Record, Header: &media.Hdr{IsAAC: true, Format: 10, AAC: 0, AACSeq: true}}
			if real {
				pk = media.Audio(media.AACTag(0, a.Record))
				demuxed(c, pk)
			}
			if out, err := give(pk, "AAC configuration"); err != nil || len(out) > 0 {
				c.Fail("AAC configuration: %v, output %s", err, mon.Hex(out))
			}
			asc = &a
			set(media.Rates[a.Index])
			c.Event("aac dispatched")
		case 4: // AAC frame
			b := c.Bytes(c.Range(1, 50))
			pk := &packet.Packet{Type: packet.PktAudio, Media: b, Header: &media.Hdr{IsAAC: true, Format: 10, AAC: 1, Avc: c.P(50), Seq: c.P(50)}}
			if real {
				pk = media.Audio(media.AACTag(1, b))
				demuxed(c, pk)
			}
			if asc == nil {
				refuse(pk, "AAC frame before any configuration")
				break
			}
			out, err := give(pk, "AAC frame")
			if err != nil || !bytes.Equal(out, asc.ADTS(b)) {
				c.Fail("AAC frame: error %v, %s", err, mon.Diff(out, asc.ADTS(b)))
			}
			c.Event("aac dispatched")
		case 5: // refused AAC
			var pk *packet.Packet
			switch c.N(3) {
			case 0:
				pk = &packet.Packet{Type: packet.PktAudio, Media: media.BadASC(c), Header: &media.Hdr{IsAAC: true, Format: 10, AACSeq: true}}
			case 1:
				pk = &packet.Packet{Type: packet.PktAudio, Media: media.NewASC(c).Record, Header: &media.Hdr{IsAAC: true, Format: 10, AAC: uint8(c.Range(2, 255))}}
			default:
				pk = &packet.Packet{Type: packet.PktAudio, Media: make([]byte, media.MaxADTS+1), Header: &media.Hdr{IsAAC: true, Format: 10, AAC: 1}}
			}
			refuse(pk, "bad AAC")
		case 6, 7: // MP3 frame
			if aacStream {
				continue
			}
			idx := c.N(4)
			b := media.MP3(c, idx)
			pk := &packet.Packet{Type: packet.PktAudio, Media: b, Header: &media.Hdr{IsMP3: true, Format: 2, AAC: uint8(c.N(3)), Avc: c.P(50)}}
			if real {
				pk = media.Audio(media.MP3Tag(b))
				demuxed(c, pk)
			}
			out, err := give(pk, "MP3 frame")
			if len(out) > 0 {
				c.Fail("MP3 frame wrote %s", mon.Hex(out))
			}
			for r, i := range map[*rate]int{spec: idx, k1: int(b[2]>>1) & 3} {
				if (i < 3) != (err == nil) {
					r.alive = false
				}
				if i < 3 {
					r.known, r.value = true, media.MP3Rates[i]
				}
			}
			if !spec.alive && !k1.alive {
				c.Fail("MP3 frame %s: error %v", mon.Hex(b), err)
			}
			c.Event("mp3 dispatched")
		case 8: // refused MP3
			pk := &packet.Packet{Type: packet.PktAudio, Media: c.Bytes(c.N(3)), Header: &media.Hdr{IsMP3: true, Format: 2}}
			refuse(pk, "MP3 data without a complete header")
		case 9: // other sound formats
			f := mon.Pick(c, uint8(0), 1, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15)
			pk := &packet.Packet{Type: packet.PktAudio, Media: media.NewASC(c).Record, Header: &media.Hdr{Format: f, AACSeq: c.P(50), Avc: c.P(50), AAC: uint8(c.N(2))}}
			refuse(pk, "other sound format")
		case 10: // other packet types
			pk := &packet.Packet{Type: mon.Pick(c, packet.PktMetadata, 3, 4, 8, 9, 18, -1, 1<<(bits.UintSize*5/8)), Media: media.NewConfig(c).Record,
				Header: &media.Hdr{Avc: true, Codec: 7, Seq: true, IsAAC: true, IsMP3: true, AACSeq: true, Format: 10}}
			if c.P(40) {
				pk.Media = media.NewASC(c).Record
			}
			refuse(pk, "packet that is neither audio nor video")
		case 11: // missing parts
			pk := &packet.Packet{Type: c.N(4), Data: media.AACTag(0, media.NewASC(c).Record)}
			if c.P(50) {
				pk.Header = &media.Hdr{Avc: true, Codec: 7, IsAAC: true, Format: 10}
			} else if c.P(50) {
				pk.Media = media.NewASC(c).Record
			}
			refuse(pk, "packet without header or media")
		}
		checkRate()
	}
	c.Shape(aacStream, kinds)
	c.Sample("kinds %v, rate %d", kinds, spec.value)
}
