package ts

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"

	"verif/media"
	"verif/mon"
)

// item is one published packet and what it stands for.
type item struct {
	p    *packet.Packet
	kind byte // 'm'etadata, 'V'ideo and 'A'udio configuration, 'v'ideo, 'a'udio, 'x' video a TS output refuses
	key  bool
	t    uint32
	ct   int32
	body []byte // the FLV tag body
	text []byte // for metadata: the body without the command header
	raw  []byte // the media behind the FLV header
	cfg  media.Config
	asc  *media.ASC
}

func (i *item) tag() []byte {
	switch i.kind {
	case 'm':
		return flvTag(18, i.t, i.text)
	case 'A', 'a':
		return flvTag(8, i.t, i.body)
	}
	return flvTag(9, i.t, i.body)
}

// flvTag is the reference FLV tag writer.
func flvTag(typ byte, t uint32, body []byte) []byte {
	n := len(body)
	b := []byte{typ, byte(n >> 16), byte(n >> 8), byte(n), byte(t >> 16), byte(t >> 8), byte(t), byte(t >> 24), 0, 0, 0}
	return binary.BigEndian.AppendUint32(append(b, body...), uint32(n)+11)
}

// viewer is one output of the relay.
type viewer interface {
	join(r *relay)
	live(i *item)
	name() string
}

type relay struct {
	c     *mon.C
	cache *gop.Cache
	n     int
	all   []*item
	// what the cache must hold
	meta, vcfg, acfg *item
	groups           [][]*item

	demux *flv.Demuxer // the publisher's, for all its packets

	viewers []viewer
	ops     []byte
}

// cached is what a viewer that joins now is given, in order.
func (r *relay) cached() (l []*item) {
	for _, i := range []*item{r.meta, r.vcfg, r.acfg} {
		if i != nil {
			l = append(l, i)
		}
	}
	return append(l, r.frames()...)
}

func (r *relay) frames() (l []*item) {
	for _, g := range r.groups {
		l = append(l, g...)
	}
	return
}

// sender hands packets on, holding their order and contents to want.
type sender struct {
	r    *relay
	what string
	want []*item
	f    func(i *item)
	n    int
}

func (s *sender) Write(p *packet.Packet) error {
	if s.n >= len(s.want) {
		s.r.c.Fail("%s: more than %d packets (%s)", s.what, s.n, kinds(s.want))
	}
	i := s.want[s.n]
	s.n++
	if p.Type != i.p.Type || p.TimeStamp != i.t || !bytes.Equal(p.Data, i.body) {
		s.r.c.Fail("%s: packet %d of %d (%s): type %d, time %d, want %d and %d; %s", s.what, s.n, len(s.want), kinds(s.want), p.Type, p.TimeStamp, i.p.Type, i.t, mon.Diff(p.Data, i.body))
	}
	q := *i // what is sent is played, be it the packet or a copy of it
	q.p = p
	s.f(&q)
	return nil
}

// replay sends from part of the cache and holds the order to want.
func (r *relay) replay(what string, send func(packet.Writer) error, want []*item, f func(i *item)) {
	s := &sender{r: r, what: what, want: want, f: f}
	if err := send(s); err != nil {
		r.c.Fail("%s: %v", what, err)
	}
	if s.n != len(want) {
		r.c.Fail("%s: %d packets, want %d (%s)", what, s.n, len(want), kinds(want))
	}
}

func kinds(l []*item) string {
	b := []byte{}
	for _, i := range l {
		k := i.kind
		if i.key && k == 'v' {
			k = 'K'
		}
		b = append(b, k)
	}
	return string(b)
}

func one(i *item) []*item {
	if i == nil {
		return nil
	}
	return []*item{i}
}

// flvViewer plays FLV.
type flvViewer struct {
	r    *relay
	id   int
	w    bytes.Buffer
	want []byte
	m    *flv.Mixer
	all  bool // is sent the whole cache as tags instead of saved headers
}

func (v *flvViewer) name() string { return fmt.Sprintf("FLV viewer %d", v.id) }

func (v *flvViewer) tag(i *item) {
	c := v.r.c
	c.Try("Mux", func() {
		if err := v.m.Mux(i.p, i.p.TimeStamp); err != nil {
			c.Fail("%s: Mux(%c): %v", v.name(), i.kind, err)
		}
	})
	v.want = append(v.want, i.tag()...)
}

func (v *flvViewer) check(what string) {
	if !bytes.Equal(v.w.Bytes(), v.want) {
		v.r.c.Fail("%s: output after %s: %s", v.name(), what, mon.Diff(v.w.Bytes(), v.want))
	}
}

func (v *flvViewer) join(r *relay) {
	c := r.c
	v.m = flv.NewMixer(&v.w)
	flags := byte(0)
	var start []byte
	if !v.all {
		r.replay("the cached video header", r.cache.VideoSeqHdr.SendTo, one(r.vcfg), func(i *item) {
			if err := v.m.SaveAVCHeader(i.p); err != nil {
				c.Fail("%s: SaveAVCHeader: %v", v.name(), err)
			}
			flags |= 1
			start = append(start, flvTag(9, 0, i.body)...)
		})
		r.replay("the cached audio header", r.cache.AudioSeqHdr.SendTo, one(r.acfg), func(i *item) {
			if err := v.m.SaveAACHeader(i.p); err != nil {
				c.Fail("%s: SaveAACHeader: %v", v.name(), err)
			}
			flags |= 4
			start = append(start, flvTag(8, 0, i.body)...)
		})
	}
	if err := v.m.SetFlvHeader(); err != nil {
		c.Fail("%s: SetFlvHeader: %v", v.name(), err)
	}
	v.want = append([]byte{'F', 'L', 'V', 1, flags, 0, 0, 0, 9, 0, 0, 0, 0}, start...)
	v.check("the start")
	if v.all {
		r.replay("the cache", r.cache.SendTo, r.cached(), v.tag)
	} else {
		r.replay("the cached groups", r.cache.Gop.SendTo, r.frames(), v.tag)
	}
	v.check("the cached packets")
	c.EventN("cached packets compared", len(r.frames()))
}

func (v *flvViewer) live(i *item) {
	v.tag(i)
	v.check(fmt.Sprintf("a live packet (%c)", i.kind))
	v.r.c.Event("live FLV tags compared")
}

// tsViewer plays TS.
type tsViewer struct {
	*mixed
	r     *relay
	id    int
	ready bool // has a video configuration
	at    *item
}

func (v *tsViewer) name() string { return fmt.Sprintf("TS viewer %d", v.id) }

// save saves a sequence header; the packet is shared, so a copy is given (K10).
func (v *tsViewer) save(i *item) {
	p := *i.p
	var err error
	at := v.w.Len()
	if i.kind == 'V' {
		err = v.m.SaveAVCHeader(&p)
		v.avc.Set(i.cfg)
	} else {
		err = v.m.SaveAACHeader(&p)
		v.asc = i.asc
	}
	if err != nil || v.w.Len() != at {
		v.r.c.Fail("%s: saving a header (%c): %v, %d bytes written", v.name(), i.kind, err, v.w.Len()-at)
	}
}

func (v *tsViewer) play(i *item) {
	c := v.r.c
	v.at = i
	switch i.kind {
	case 'V', 'A':
		v.save(i)
	case 'a':
		if v.asc == nil {
			return
		}
		if err := v.m.Update(i.p, i.p.TimeStamp, 0); err != nil {
			c.Fail("%s: Update(audio): %v", v.name(), err)
		}
		v.mux(i.p, &frame{audio: true, payload: v.asc.ADTS(i.raw)}, "audio for "+v.name())
		c.Event("TS audio frames compared")
	case 'v', 'x':
		h, ok := i.p.Header.(packet.VideoPacketHeader)
		if !ok {
			c.Fail("a demuxed video packet has no video header")
		}
		if err := v.m.Update(i.p, i.p.TimeStamp, uint32(h.CompositionTime())); err != nil {
			c.Fail("%s: Update(video): %v", v.name(), err)
		}
		if i.kind == 'x' {
			v.mux(i.p, nil, "refused video for "+v.name())
			return
		}
		want, ok := v.avc.Convert(i.raw)
		if !ok {
			c.Fail("reference refuses a generated unit %s", mon.Hex(i.raw))
		}
		v.mux(i.p, &frame{key: i.key, payload: want, timed: true, dts: 90 * int64(i.t), pts: 90 * (int64(i.t) + int64(i.ct))}, "video for "+v.name())
		c.Event("TS video frames compared")
	}
}

func (v *tsViewer) join(r *relay) {
	v.w = &bytes.Buffer{}
	v.m = ts.NewMixer(v.w)
	v.observer.times = func(f frame, p pes) {
		if f.audio {
			want := 90 * int64(v.at.t)
			if d := centered(int64(p.pts) - want); !p.hasPTS || p.hasDTS || d > 900 || d < -900 {
				r.c.Fail("%s: audio at %d ms stamped %d (present %v)", v.name(), v.at.t, p.pts, p.hasPTS)
			}
		}
	}
	r.replay("the cached video header", r.cache.VideoSeqHdr.SendTo, one(r.vcfg), v.save)
	r.replay("the cached audio header", r.cache.AudioSeqHdr.SendTo, one(r.acfg), v.save)
	v.header()
	r.replay("the cached groups", r.cache.Gop.SendTo, r.frames(), v.play)
}

func (v *tsViewer) live(i *item) { v.play(i) }

// brokenViewer has an output that fails after some bytes; nobody looks at it.
type brokenViewer struct {
	f    *flv.Mixer
	x    *ts.Mixer
	left int
}

func (v *brokenViewer) Write(b []byte) (int, error) {
	if v.left -= len(b); v.left < 0 {
		return len(b) / 2, errors.New("gone")
	}
	return len(b), nil
}

func (v *brokenViewer) name() string { return "broken viewer" }

func (v *brokenViewer) join(r *relay) {
	v.f, v.x = flv.NewMixer(v), ts.NewMixer(v)
	_ = v.f.SetFlvHeader()
	_ = v.x.SetTsHeader()
	r.replay("the cache", r.cache.SendTo, r.cached(), v.live)
}

func (v *brokenViewer) live(i *item) {
	_ = v.f.Mux(i.p, i.p.TimeStamp)
	if i.kind == 'v' || i.kind == 'x' {
		_ = v.x.Update(i.p, i.t, uint32(i.ct))
		_ = v.x.Mux(i.p)
	}
	p := *i.p
	switch i.kind {
	case 'V':
		_ = v.x.SaveAVCHeader(&p)
	case 'A':
		_ = v.x.SaveAACHeader(&p)
	}
}

// unit returns an access unit of a key or inter frame; a key frame is big
// enough to fill more than one packet (K2).
func unit(c *mon.C, key bool, size int) (b []byte) {
	put := func(n []byte) { b = append(b, media.Unit(size, n)...) }
	long := 600
	if size == 1 {
		long = 255
	}
	if c.P(20) {
		put([]byte{9, 0xf0})
	}
	if c.P(20) {
		put(media.NAL(c, 6, c.Range(2, 30)))
	}
	if key && c.P(20) {
		put(media.NAL(c, 7, c.Range(4, 30)))
		put(media.NAL(c, 8, c.Range(2, 10)))
	}
	for n := c.Range(1, 3); n > 0; n-- {
		if key {
			put(media.NAL(c, 5, c.Range(200, long)))
		} else {
			put(media.NAL(c, 1, c.Range(2, min(long, mon.Pick(c, 60, 400)))))
		}
	}
	return
}

// publish gives one tag to the relay as a publisher's packet.
func (r *relay) publish(i *item) {
	c := r.c
	i.p = &packet.Packet{TimeStamp: i.t, Baseline: uint32(c.N(50)), StreamID: c.Uint32(), Data: append([]byte(nil), i.body...)}
	switch i.kind {
	case 'm':
		i.p.Type = packet.PktMetadata
	case 'a', 'A':
		i.p.Type = packet.PktAudio
	default:
		i.p.Type = packet.PktVideo
	}
	if i.kind != 'm' {
		if err := r.demux.Demux(i.p); err != nil {
			c.Fail("Demux(%c %s): %v", i.kind, mon.Hex(i.body), err)
		}
	}
	r.all = append(r.all, i)
	var err error
	c.Try("Write to the cache", func() { err = r.cache.Write(i.p) })
	refused := false
	switch i.kind {
	case 'm':
		r.meta = i
	case 'V':
		r.vcfg = i
	case 'A':
		r.acfg = i
	case 'v', 'x':
		if i.key {
			if r.n > 0 {
				r.groups = append(r.groups, []*item{i})
				if len(r.groups) > r.n {
					r.groups = r.groups[1:]
					c.Event("groups evicted")
				}
			}
		} else if k := len(r.groups); k > 0 {
			r.groups[k-1] = append(r.groups[k-1], i)
		} else {
			refused = r.n > 0
		}
	}
	if err != nil && !refused {
		c.Fail("the cache refused a packet (%c): %v", i.kind, err)
	}
	c.Note("published %c (key %v) at %d ms, %d bytes", i.kind, i.key, i.t, len(i.body))
	r.ops = append(r.ops, i.kind)
	for _, v := range r.viewers {
		c.Try(v.name(), func() { v.live(i) })
	}
}

func (r *relay) join() {
	c := r.c
	var v viewer
	switch id := len(r.viewers); c.N(9) {
	case 0:
		v = &brokenViewer{left: c.N(3000)}
	case 1, 2, 3, 4:
		v = &flvViewer{r: r, id: id, all: c.P(50)}
	default:
		v = &tsViewer{mixed: &mixed{observer: newObserver(c, checks{true, true, true})}, r: r, id: id}
	}
	c.Note("%s joins", v.name())
	c.Try("join of "+v.name(), func() { v.join(r) })
	r.viewers = append(r.viewers, v)
	r.ops = append(r.ops, 'j')
	if len(r.frames()) > 0 {
		c.Event("viewers joined late")
	}
	c.Event("viewers joined")
}

func relays(c *mon.C) {
	r := &relay{c: c, n: mon.Pick(c, 1, 1, 2, 3, 5, 0)}
	r.cache, r.demux = gop.NewCache(r.n), flv.NewDemuxer()
	t := mon.Pick(c, uint32(0), uint32(c.N(100000)), 1<<24-100, 1<<31-100, 1<<32-200, c.Uint32())
	size := mon.Pick(c, 4, 4, 4, 2, 1) // of the lengths of this publisher; what is cached stays readable
	withVideo, withAudio := !c.P(10), !c.P(20)
	for n := c.Steps(1, 60); n > 0; n-- {
		t += uint32(mon.Pick(c, 0, c.N(50), 40, 21, 23, -c.N(30)))
		if c.P(1) {
			t = c.Uint32()
		}
		i := &item{t: t}
		switch k := c.N(30); {
		case k < 2 && len(r.viewers) < 6:
			r.join()
			continue
		case k == 2:
			i.kind = 'm'
			i.text = append([]byte{2, 0, 10}, "onMetaData"...)
			i.text = append(i.text, 8, 0, 0, 0, 0)
			for m := c.N(4); m > 0; m-- {
				i.text = append(i.text, 0, 1, byte('a'+m), 0)
				i.text = append(i.text, c.Bytes(8)...)
			}
			i.text = append(i.text, 0, 0, 9)
			i.body = i.text
			if c.P(50) {
				i.body = append([]byte("\x02\x00\x0d@setDataFrame"), i.text...)
			}
		case withAudio && (k < 5 || r.acfg == nil && k < 12):
			a := media.NewASC(c)
			i.kind, i.asc, i.body = 'A', &a, media.AACTag(0, a.Record)
		case withVideo && (k < 7 || r.vcfg == nil):
			g := media.NewConfigLen(c, size)
			i.kind, i.cfg, i.body = 'V', g, media.VideoTag(true, 0, 0, g.Record)
		case withAudio && r.acfg != nil && (k < 16 || !withVideo):
			i.kind, i.raw = 'a', c.Bytes(c.Range(1, 500))
			i.body = media.AACTag(1, i.raw)
		case withVideo:
			i.kind, i.key = 'v', c.P(25) || len(r.groups) == 0 && c.P(70)
			if c.P(40) {
				i.ct = int32(c.Range(-200, 400))
			}
			if c.P(4) {
				i.ct = mon.Pick(c, int32(1<<23-1), -1<<23)
			}
			i.raw = unit(c, i.key, size)
			if c.P(4) { // cut in its last NAL unit
				i.kind = 'x'
				i.raw = i.raw[:len(i.raw)-1]
			}
			i.body = media.VideoTag(i.key, 1, i.ct, i.raw)
		default:
			continue
		}
		r.publish(i)
	}
	r.join()
	for _, i := range r.all {
		if !bytes.Equal(i.p.Data, i.body) || i.p.TimeStamp != i.t {
			c.Fail("a published packet (%c) was changed: time %d, want %d; %s", i.kind, i.p.TimeStamp, i.t, mon.Diff(i.p.Data, i.body))
		}
	}
	c.EventN("packets published", len(r.all))
	c.Shape(r.n, r.ops)
	c.Sample("cache of %d groups, history %q, %d viewers", r.n, r.ops, len(r.viewers))
}
