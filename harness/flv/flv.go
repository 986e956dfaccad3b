// Package flv monitors the FLV muxer, mixer and tag parser.
package flv

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"

	"verif/amf"
	"verif/kit"
	"verif/mon"
)

// Props lists the properties of this area.
func Props() []*mon.Prop {
	return []*mon.Prop{
		{ID: "F01", Level: "exploration", Quick: 120000, Thorough: 3000000, Directed: 12, Run: muxing,
			Rule: "histories of muxed, refused and saved packets on one mixer with one or two outputs, compared byte for byte with an independent FLV tag model; distinct by the sequence of operations, packet kinds and size buckets",
			Need: []string{"tags compared", "refused", "metadata stripped", "outputs parsed"}},
		{ID: "F02", Level: "exploration", Quick: 300000, Thorough: 6000000, Directed: 1, Run: parsing,
			Rule: "tag bodies of every first byte and packet type, random composition times, fresh and reused parsers; distinct by first byte, packet type, length bucket and reuse",
			Need: []string{"video fields compared", "audio fields compared", "refused", "reused tag compared", "earlier tags read again"}},
		{ID: "F03", Level: "exploration", Quick: 120000, Thorough: 3000000, Directed: 4, Run: starting,
			Rule: "histories of saving headers and metadata (also refused), muxing, switching outputs, caller buffer reuse and writing the start; distinct by operation sequence",
			Need: []string{"starts compared", "refused saves", "caller buffers overwritten"}},
	}
}

const metaName = "@setDataFrame"

var metaHeader = append([]byte{2, 0, byte(len(metaName))}, metaName...)
var metaHeaderLong = append([]byte{12, 0, 0, 0, byte(len(metaName))}, metaName...)

// tag is the reference FLV tag writer.
func tag(typ byte, ts uint32, data []byte) []byte {
	b := make([]byte, 0, len(data)+15)
	n := len(data)
	b = append(b, typ, byte(n>>16), byte(n>>8), byte(n), byte(ts>>16), byte(ts>>8), byte(ts), byte(ts>>24), 0, 0, 0)
	b = append(b, data...)
	return binary.BigEndian.AppendUint32(b, uint32(n)+11)
}

func stamp(c *mon.C) uint32 {
	switch c.N(3) {
	case 0:
		return mon.Pick(c, uint32(0), 1, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xffffffff, 0xff000000, 0x00ff0000, 0x12345678)
	case 1:
		return c.Uint32()
	}
	return uint32(c.N(100000))
}

// pkt generates a packet and the tag it must become (nil: must be refused).
func pkt(c *mon.C) (p *packet.Packet, typ byte, data []byte, name string) {
	p = &packet.Packet{TimeStamp: c.Uint32(), Baseline: c.Uint32(), StreamID: c.Uint32()}
	body := func() []byte { return c.Bytes(c.Size(2000, 255, 256, 65535>>6)) }
	switch c.N(12) {
	case 0, 1, 2:
		p.Type, p.Data, typ, name = packet.PktVideo, body(), 9, "video"
		data = append([]byte(nil), p.Data...)
	case 3, 4, 5:
		p.Type, p.Data, typ, name = packet.PktAudio, body(), 8, "audio"
		data = append([]byte(nil), p.Data...)
	case 6, 7: // metadata with the command header
		p.Type, typ, name = packet.PktMetadata, 18, "metadata+header"
		rest := append(amf.Value0(c, true), amf.Value0(c, c.P(20))...)
		if c.P(20) {
			rest = body()
		}
		h := metaHeader
		if c.P(30) {
			h, name = metaHeaderLong, "metadata+long header"
		}
		p.Data = append(append([]byte(nil), h...), rest...)
		data = append([]byte(nil), rest...)
	case 8, 9: // without
		p.Type, typ, name = packet.PktMetadata, 18, "metadata"
		s := mon.Pick(c, "onMetaData", "x", "", "@setDataFram", "@setDataFrame2")
		p.Data = append([]byte{2, 0, byte(len(s))}, s...)
		p.Data = append(p.Data, body()...)
		data = append([]byte(nil), p.Data...)
	case 10: // metadata that does not start with a string
		p.Type, name = packet.PktMetadata, "metadata bad"
		p.Data = amf.Value0(c, false)
		if c.P(30) {
			p.Data = []byte{2, 0, 9, 'a'}
		}
		if c.P(10) {
			p.Data = nil
		}
	default:
		p.Type, p.Data, name = mon.Pick(c, -1, 3, 4, 8, 9, 18, 1<<30, -1<<31), body(), "unknown type"
	}
	if c.P(3) && name != "unknown type" && p.Type != packet.PktMetadata {
		p.Data = nil
		data = []byte{}
	}
	if typ != 0 && data == nil {
		data = []byte{}
	}
	return
}

// output is one writer and what it must contain.
type output struct {
	w    *bytes.Buffer
	want []byte
}

type history struct {
	c    *mon.C
	m    *flv.Mixer
	outs []*output
	cur  int
	ops  []byte

	avc, aac    []byte // saved tags
	meta        []byte // saved metadata tag, once seen
	metaSet     bool
	metaJudge   func([]byte) string
	sawV, sawA  bool
	bufs        []*kit.Guarded
	scribbled   int
	startsSeen  int
	tagsWritten int
}

func newHistory(c *mon.C) *history {
	h := &history{c: c}
	for i := 0; i < 2; i++ {
		h.outs = append(h.outs, &output{w: &bytes.Buffer{}})
	}
	h.m = flv.NewMixer(h.outs[0].w)
	return h
}

func (h *history) out() *output { return h.outs[h.cur] }

func (h *history) check(what string) {
	for i, o := range h.outs {
		if !bytes.Equal(o.w.Bytes(), o.want) {
			h.c.Fail("%s, output %d: %s", what, i, mon.Diff(o.w.Bytes(), o.want))
		}
	}
}

func (h *history) guard(p *packet.Packet) *kit.Guarded {
	g := kit.Guard(p.Data)
	if p.Data != nil {
		p.Data = g.S
	}
	h.bufs = append(h.bufs, g)
	return g
}

func (h *history) mux() {
	c := h.c
	p, typ, data, name := pkt(c)
	g := h.guard(p)
	ts := stamp(c)
	err := h.m.Mux(p, ts)
	c.Note("Mux(%s, %d bytes, ts %d) = %v", name, len(g.S), ts, err)
	h.ops = append(h.ops, name[0], name[len(name)-1], byte(len(data)>>4))
	if data == nil {
		if err == nil {
			c.Fail("packet accepted that FLV cannot represent (%s): %s", name, mon.Hex(g.S))
		}
		c.Event("refused")
	} else {
		if err != nil {
			c.Fail("Mux(%s %s): %v", name, mon.Hex(g.S), err)
		}
		h.out().want = append(h.out().want, tag(typ, ts, data)...)
		h.tagsWritten++
		c.Event("tags compared")
		if typ == 18 && len(data) != len(g.S) {
			c.Event("metadata stripped")
		}
	}
	h.check("Mux(" + name + ")")
	if s := g.Check(); s != "" {
		c.Fail("Mux changed the packet's data: %s", s)
	}
}

// start writes the FLV start and checks it.
func (h *history) start() {
	c := h.c
	o := h.out()
	before := o.w.Len()
	if err := h.m.SetFlvHeader(); err != nil {
		c.Fail("SetFlvHeader: %v", err)
	}
	c.Note("SetFlvHeader")
	h.ops = append(h.ops, 'S')
	got := o.w.Bytes()[before:]
	flags := byte(0)
	if h.sawV {
		flags |= 1
	}
	if h.sawA {
		flags |= 4
	}
	want := []byte{'F', 'L', 'V', 1, flags, 0, 0, 0, 9, 0, 0, 0, 0}
	if h.metaSet {
		if h.meta == nil { // first replay since it was saved: judge it
			p := got[min(len(got), len(want)):]
			if len(p) < 15 {
				c.Fail("metadata tag missing in start %s", mon.Hex(got))
			}
			n := int(p[1])<<16 | int(p[2])<<8 | int(p[3])
			if len(p) < 15+n {
				c.Fail("metadata tag of %d bytes is cut off: %s", n, mon.Hex(got))
			}
			body := p[11 : 11+n]
			name := append([]byte{2, 0, 10}, "onMetaData"...)
			if !bytes.HasPrefix(body, name) {
				c.Fail("metadata tag does not start with onMetaData: %s", mon.Hex(body))
			}
			if s := h.metaJudge(body[len(name):]); s != "" {
				c.Fail("saved metadata: %s; %s", s, mon.Hex(body))
			}
			h.meta = tag(18, 0, body)
		}
		want = append(want, h.meta...)
	}
	want = append(want, h.avc...)
	want = append(want, h.aac...)
	o.want = append(o.want, want...)
	h.check("SetFlvHeader")
	h.startsSeen++
	c.Event("starts compared")
}

func (h *history) saveMeta() {
	c := h.c
	if c.P(15) {
		if err := h.m.SaveMetadata(amf.BadMetadata(c)); err == nil {
			c.Fail("SaveMetadata accepted an object that cannot be encoded")
		}
		c.Note("SaveMetadata(bad) refused")
		c.Event("refused saves")
		h.ops = append(h.ops, 'm')
	} else {
		o, judge := amf.Metadata(c)
		if err := h.m.SaveMetadata(o); err != nil {
			c.Fail("SaveMetadata: %v", err)
		}
		c.Note("SaveMetadata(%d members)", len(o))
		for k := range o { // later changes of the caller's object do not count
			if c.P(50) {
				delete(o, k)
			}
		}
		h.metaSet, h.meta, h.metaJudge = true, nil, judge
		h.ops = append(h.ops, 'M')
	}
	h.check("SaveMetadata")
}

func (h *history) saveSeq(video bool) {
	c := h.c
	bad := c.P(15)
	p := &packet.Packet{Data: c.Bytes(c.Size(300)), TimeStamp: c.Uint32()}
	typ := byte(8)
	p.Type = packet.PktAudio
	if video {
		typ, p.Type = 9, packet.PktVideo
	}
	if c.P(80) && len(p.Data) > 1 {
		p.Data[0], p.Data[1] = 0xaf, 0
		if video {
			p.Data[0] = 0x17
		}
	}
	if bad {
		p.Type = mon.Pick(c, 3, 77, -5)
	}
	data := append([]byte(nil), p.Data...)
	g := h.guard(p)
	var err error
	if video {
		err = h.m.SaveAVCHeader(p)
	} else {
		err = h.m.SaveAACHeader(p)
	}
	c.Note("save(video=%v, bad=%v, %d bytes) = %v", video, bad, len(data), err)
	h.ops = append(h.ops, typ, b2b(bad))
	if bad {
		if err == nil {
			c.Fail("a header packet of unknown type was saved")
		}
		c.Event("refused saves")
	} else {
		if err != nil {
			c.Fail("saving a header: %v", err)
		}
		if video {
			h.avc, h.sawV = tag(9, 0, data), true
		} else {
			h.aac, h.sawA = tag(8, 0, data), true
		}
	}
	if s := g.Check(); s != "" {
		c.Fail("saving changed the packet: %s", s)
	}
	h.check("saving a header")
}

func b2b(b bool) byte {
	if b {
		return 1
	}
	return 0
}

// scribble reuses the caller's buffers.
func (h *history) scribble() {
	for _, g := range h.bufs {
		g.Scribble(byte(h.c.N(256)))
	}
	h.bufs = nil
	h.c.Note("caller buffers overwritten")
	h.c.Event("caller buffers overwritten")
	h.check("buffer reuse")
}

func (h *history) sw() {
	h.cur = 1 - h.cur
	h.m.SetWriter(h.out().w)
	h.c.Note("SetWriter(%d)", h.cur)
	h.ops = append(h.ops, 'w')
}

// parse checks that an output without starts is an unbroken tag sequence.
func parseTags(b []byte) (int, string) {
	n := 0
	for len(b) > 0 {
		if len(b) < 15 {
			return n, "trailing bytes"
		}
		l := int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		if len(b) < 15+l {
			return n, "tag cut off"
		}
		if b[0] != 8 && b[0] != 9 && b[0] != 18 || b[8]|b[9]|b[10] != 0 {
			return n, "bad tag header"
		}
		if binary.BigEndian.Uint32(b[11+l:]) != uint32(l)+11 {
			return n, "bad previous tag size"
		}
		b = b[15+l:]
		n++
	}
	return n, ""
}

func muxing(c *mon.C) {
	if d, ok := c.Directed(); ok {
		big(c, d)
		return
	}
	h := newHistory(c)
	for i := c.Steps(1, 14); i > 0; i-- {
		switch k := c.N(20); {
		case k < 15:
			h.mux()
		case k < 16:
			h.saveSeq(c.P(50))
		case k < 17:
			h.saveMeta()
		case k < 18:
			h.sw()
		default:
			h.scribble()
		}
	}
	total := 0
	for i, o := range h.outs {
		n, bad := parseTags(o.w.Bytes())
		if bad != "" {
			c.Fail("output %d: %s after %d tags", i, bad, n)
		}
		total += n
	}
	if total != h.tagsWritten {
		c.Fail("%d tags in the outputs, %d packets muxed", total, h.tagsWritten)
	}
	c.Event("outputs parsed")
	c.Shape(string(h.ops))
	c.Sample("%d tags; %v", total, h.ops)
}

// big checks the 24-bit size limit.
func big(c *mon.C, d int) {
	sizes := []int{0xffffff, 0x1000000, 0x1000001, 0xfffffe, 0x1000000 + 255, 0x10000, 0xffff, 0xfeffff}
	n := sizes[d%len(sizes)]
	p := &packet.Packet{Type: packet.PktVideo, Data: make([]byte, n)}
	for i := 0; i < n; i += 4099 {
		p.Data[i] = byte(i * 31)
	}
	typ := byte(9)
	data := p.Data
	switch d % 3 {
	case 1:
		p.Type, typ = packet.PktAudio, 8
	case 2: // metadata: the limit counts after stripping the header
		p.Type, typ = packet.PktMetadata, 18
		if n < 200 {
			break
		}
		copy(p.Data, []byte{2, 0, 1, 'x'})
		p.Data = append(append([]byte(nil), metaHeader...), p.Data...)
	}
	var w bytes.Buffer
	m := flv.NewMixer(&w)
	err := m.Mux(p, 0xff123456)
	if n > 0xffffff {
		if err == nil || w.Len() != 0 {
			c.Fail("a packet of %d bytes: error %v, %d bytes written", n, err, w.Len())
		}
		c.Event("refused")
		err = m.SaveAVCHeader(&packet.Packet{Type: packet.PktVideo, Data: data})
		if err == nil {
			c.Fail("a header of %d bytes was saved", n)
		}
	} else {
		if err != nil {
			c.Fail("a packet of %d bytes: %v", n, err)
		}
		if want := tag(typ, 0xff123456, data); !bytes.Equal(w.Bytes(), want) {
			c.Fail("a packet of %d bytes: %s", n, mon.Diff(w.Bytes(), want))
		}
		c.Event("tags compared")
	}
	w.Reset()
	if err := m.Mux(&packet.Packet{Type: packet.PktAudio, Data: []byte{1, 2, 3}}, 7); err != nil || !bytes.Equal(w.Bytes(), tag(8, 7, []byte{1, 2, 3})) {
		c.Fail("the packet after it: %v %x", err, w.Bytes())
	}
	c.Shape("big", n, d)
}

// typesKept holds the set of media types to what was put in since its reset.
func typesKept(c *mon.C) {
	t := packet.NewTypes()
	video, audio := false, false
	for n := c.Steps(0, 8); n > 0; n-- {
		switch c.N(4) {
		case 0:
			t.IsVideo()
			video = true
		case 1:
			t.IsAudio()
			audio = true
		case 2:
			t.Reset()
			video, audio = false, false
		}
		v, a, k := 0, 0, t.ToSlice()
		for _, x := range k {
			switch x {
			case packet.PktVideo:
				v++
			case packet.PktAudio:
				a++
			}
		}
		if v+a != len(k) || v > 1 || a > 1 || v == 1 != video || a == 1 != audio {
			c.Fail("media types %v, want video %v, audio %v", k, video, audio)
		}
	}
	c.Event("type sets compared")
}

func starting(c *mon.C) {
	if c.P(5) {
		typesKept(c)
	}
	if d, ok := c.Directed(); ok && d == 0 {
		var w bytes.Buffer
		if err := flv.NewMixer(&w).SetFlvHeader(); err != nil || !bytes.Equal(w.Bytes(), []byte{'F', 'L', 'V', 1, 0, 0, 0, 0, 9, 0, 0, 0, 0}) {
			c.Fail("start with nothing saved: %v %x", err, w.Bytes())
		}
		c.Event("starts compared")
		return
	}
	h := newHistory(c)
	for i := c.Steps(2, 20); i > 0; i-- {
		switch k := c.N(20); {
		case k < 3:
			h.mux()
		case k < 6:
			h.saveSeq(true)
		case k < 9:
			h.saveSeq(false)
		case k < 12:
			h.saveMeta()
		case k < 13:
			h.sw()
		case k < 15:
			h.scribble()
		default:
			h.start()
		}
	}
	h.start()
	if c.P(50) {
		h.scribble()
		h.sw()
		h.start()
	}
	c.Shape(string(h.ops))
	c.Sample("%d starts; %v", h.startsSeen, h.ops)
}

// ---- F02 ----

// fields compares what a parsed tag exposes with the tag's bits.
func fields(v packet.Header, typ int, b []byte) string {
	bad := func(what string, got, want interface{}) string {
		if got != want {
			return fmt.Sprintf("%s is %v, want %v", what, got, want)
		}
		return ""
	}
	first := func(ss ...string) string {
		for _, s := range ss {
			if s != "" {
				return s
			}
		}
		return ""
	}
	if typ == packet.PktVideo {
		vh, ok := v.(packet.VideoPacketHeader)
		if !ok {
			return fmt.Sprintf("header is %T, no video header", v)
		}
		ft, codec := b[0]>>4, b[0]&15
		key, inter := ft == 1, ft == 2
		s := first(bad("CodecID", vh.CodecID(), codec), bad("IsCodecAvc", vh.IsCodecAvc(), codec == 7),
			bad("IsKeyFrame", vh.IsKeyFrame(), key), bad("IsInterFrame", vh.IsInterFrame(), inter))
		if s != "" || !key && !inter || codec != 7 {
			return s
		}
		ct := int32(b[2])<<16 | int32(b[3])<<8 | int32(b[4])
		if ct >= 1<<23 {
			ct -= 1 << 24
		}
		s = first(bad("IsSeqHdr", vh.IsSeqHdr(), key && b[1] == 0), bad("IsEndOfSeq", vh.IsEndOfSeq(), key && b[1] == 2))
		if s == "" && (b[1] == 1 || ct == 0) {
			s = bad("CompositionTime", vh.CompositionTime(), ct)
		}
		return s
	}
	ah, ok := v.(packet.AudioPacketHeader)
	if !ok {
		return fmt.Sprintf("header is %T, no audio header", v)
	}
	f := b[0] >> 4
	s := first(bad("SoundFormat", ah.SoundFormat(), f), bad("IsSoundAAC", ah.IsSoundAAC(), f == 10), bad("IsSoundMP3", ah.IsSoundMP3(), f == 2))
	if s == "" && f == 10 {
		s = first(bad("AACType", ah.AACType(), b[1]), bad("IsAACSeqHdr", ah.IsAACSeqHdr(), b[1] == 0))
	}
	return s
}

// headerLen is the media header length, or -1 if the tag must be refused.
func headerLen(typ int, b []byte) int {
	if typ == packet.PktVideo {
		if len(b) < 5 {
			return -1
		}
		if ft := b[0] >> 4; ft == 1 || ft == 2 {
			return 5
		}
		return 1
	}
	if len(b) < 2 {
		return -1
	}
	switch b[0] >> 4 {
	case 10:
		return 2
	case 2:
		return 1
	}
	return -1
}

func parsing(c *mon.C) {
	var reused flv.Tag
	d := flv.NewDemuxer()
	steps := c.Steps(1, 6)
	var earlier []*packet.Packet
	defer func() { // headers stay what they were when later tags are parsed
		for _, p := range earlier {
			if s := fields(p.Header, p.Type, p.Data); s != "" {
				c.Violate("type %d tag %s after later tags were parsed: %s", p.Type, mon.Hex(p.Data), s)
				return
			}
			if n := headerLen(p.Type, p.Data); !bytes.Equal(p.Media, p.Data[n:]) {
				c.Violate("type %d tag %s after later tags were parsed: media %s", p.Type, mon.Hex(p.Data), mon.Hex(p.Media))
				return
			}
		}
		c.EventN("earlier tags read again", len(earlier))
	}()
	keep := func(p *packet.Packet) {
		if p != nil && len(earlier) < 50 {
			earlier = append(earlier, p)
		}
	}
	first := byte(0)
	if dd, ok := c.Directed(); ok && dd == 0 { // every first byte and packet type
		for typ := 0; typ < 2; typ++ {
			for i := 0; i < 256; i++ {
				for l := 0; l < 8; l++ {
					for k := 0; k < 4; k++ {
						b := append([]byte{byte(i), byte(k)}, c.Bytes(8)...)[:l]
						keep(one(c, d, &reused, typ, b))
					}
				}
			}
		}
		for i := 0; i < 256; i++ {
			for _, typ := range []int{packet.PktVideo} {
				keep(one(c, d, &reused, typ, []byte{0x17, 1, byte(i), 0xff, 0x80, 9}))
				keep(one(c, d, &reused, typ, []byte{0x27, 1, 0x80, byte(i), 0, 9}))
				keep(one(c, d, &reused, typ, []byte{0x27, 1, 0, 0, byte(i)}))
			}
		}
		return
	}
	for ; steps > 0; steps-- {
		typ := mon.Pick(c, packet.PktVideo, packet.PktAudio)
		b := c.Bytes(c.Size(200, 5, 2))
		if len(b) > 0 && c.P(90) {
			if typ == packet.PktVideo {
				b[0] = mon.Pick(c, byte(0x17), 0x27, 0x17, 0x27, byte(c.N(256)), 0x37, 0x12, 0x24)
			} else {
				b[0] = mon.Pick(c, byte(0xaf), 0xae, 0x2f, 0x22, byte(c.N(256)), byte(c.N(16)<<4))
			}
		}
		if len(b) > 1 && c.P(80) {
			b[1] = byte(c.N(4))
		}
		if len(b) > 4 && c.P(30) {
			copy(b[2:5], []byte{mon.Pick(c, byte(0), 0x7f, 0x80, 0xff), mon.Pick(c, byte(0), 0xff), mon.Pick(c, byte(0), 0xff, 1)})
		}
		if len(b) > 0 {
			first ^= b[0]
		}
		keep(one(c, d, &reused, typ, b))
	}
	if c.P(10) {
		p := &packet.Packet{Type: mon.Pick(c, 3, 9, -1), Data: c.Bytes(20)}
		if err := d.Demux(p); err == nil {
			c.Fail("a packet of unknown type %d was demuxed", p.Type)
		}
		c.Event("refused")
	}
}

func one(c *mon.C, d *flv.Demuxer, reused *flv.Tag, typ int, b []byte) *packet.Packet {
	g := kit.Guard(b)
	p := &packet.Packet{Type: typ, Data: g.S}
	n := headerLen(typ, b)
	err := d.Demux(p)
	rn, rerr := reused.ParseMediaTagHeader(g.S, typ)
	c.Note("type %d tag %s", typ, mon.Hex(b))
	if fresh, ok := p.Header.(*flv.Tag); ok && err == nil && rerr == nil {
		if got, want := exposed(reused), exposed(fresh); got != want {
			c.Fail("type %d tag %s: a Tag used before exposes %s, a fresh one %s", typ, mon.Hex(b), got, want)
		}
	}
	if typ == packet.PktVideo && len(b) > 0 && b[0] != 0x17 && b[0] != 0x27 {
		// not an AVC key or inter frame: only frame type and codec are specified
		if err == nil && rerr == nil && len(b) >= 5 {
			if s := fields(p.Header, typ, b); s != "" {
				c.Fail("type %d tag %s: %s", typ, mon.Hex(b), s)
			}
			c.Event("other video tags")
		}
		return nil
	}
	if n < 0 {
		if err == nil || rerr == nil {
			c.Fail("type %d tag %s must be refused; Demux %v, ParseMediaTagHeader %v", typ, mon.Hex(b), err, rerr)
		}
		if p.Header != nil || p.Media != nil {
			c.Fail("a refused packet got a header or media")
		}
		c.Event("refused")
		c.Shape("refused", typ, len(b), head(b))
		return nil
	}
	if err != nil || rerr != nil {
		c.Fail("type %d tag %s refused: Demux %v, ParseMediaTagHeader %v", typ, mon.Hex(b), err, rerr)
	}
	if !bytes.Equal(p.Media, b[n:]) || rn != n {
		c.Fail("type %d tag %s: media %s, want the bytes after the %d-byte header (reported %d)", typ, mon.Hex(b), mon.Hex(p.Media), n, rn)
	}
	if s := fields(p.Header, typ, b); s != "" {
		c.Fail("type %d tag %s: %s", typ, mon.Hex(b), s)
	}
	if s := fields(reused, typ, b); s != "" {
		c.Fail("type %d tag %s parsed by a reused Tag: %s", typ, mon.Hex(b), s)
	}
	if !bytes.Equal(p.Data, b) || g.Check() != "" {
		c.Fail("parsing changed the tag: %s", g.Check())
	}
	if typ == packet.PktVideo {
		c.Event("video fields compared")
	} else {
		c.Event("audio fields compared")
	}
	c.Event("reused tag compared")
	var b1 byte
	if len(b) > 1 {
		b1 = min(b[1], 4)
	}
	c.Shape(typ, b[0], b1, min(len(b), 12))
	c.Sample("type %d tag %s -> media %d bytes", typ, mon.Hex(b), len(p.Media))
	return p
}

// exposed is all that a parsed tag exposes.
func exposed(t *flv.Tag) string {
	return fmt.Sprint("codec ", t.CodecID(), t.IsCodecAvc(), " key ", t.IsKeyFrame(), " inter ", t.IsInterFrame(),
		" header ", t.IsSeqHdr(), " end ", t.IsEndOfSeq(), " offset ", t.CompositionTime(),
		" sound ", t.SoundFormat(), t.IsSoundAAC(), t.IsSoundMP3(), " aac ", t.AACType(), t.IsAACSeqHdr())
}

func head(b []byte) int {
	if len(b) == 0 {
		return -1
	}
	return int(b[0])
}
