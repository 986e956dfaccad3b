package ts

import (
	"bytes"
	"fmt"
	"math/bits"

	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/packet"

	"verif/kit"
	"verif/media"
	"verif/mon"
)

// Props lists the properties of this area.
func Props() []*mon.Prop {
	return []*mon.Prop{
		{ID: "T01", Level: "exploration", Quick: 300000, Thorough: 12000000, Directed: 1303, Run: func(c *mon.C) { run(c, checks{structure: true}) },
			Rule: "histories of frames, tables, saved headers and refused packets on a muxer or mixer, every output packet parsed strictly, counters followed per PID; directed: every payload length up to 1299 bytes in each kind of frame, and frames of 1, 4 and 16 MiB; distinct by sequence of frame kinds and packet counts",
			Need: []string{"packets checked", "counter steps checked", "refused packets", "saved headers between frames", "tables between frames"}},
		{ID: "T02", Level: "exploration", Quick: 300000, Thorough: 12000000, Directed: 1303, Run: func(c *mon.C) { run(c, checks{payload: true}) },
			Rule: "same histories as T01; the PES packets of each PID are reassembled and compared byte for byte with the frames, for the mixer with the reference Annex-B and ADTS conversions; distinct by sequence of frame kinds and sizes",
			Need: []string{"frames compared", "frames above 16 bits of PES length", "mixer frames compared", "packets muxed again", "packets muxed to two outputs"}},
		{ID: "T03", Level: "exploration", Quick: 300000, Thorough: 12000000, Directed: 1303, Run: func(c *mon.C) { run(c, checks{times: true}) },
			Rule: "same histories with random, boundary and negative times; PTS, DTS, marker bits and PCR read bit by bit from every frame; distinct by frame kind and time class",
			Need: []string{"PTS compared", "DTS compared", "PCR compared", "times beyond 33 bits", "negative times"}},
		{ID: "T04", Level: "exploration", Quick: 600000, Thorough: 20000000, Directed: 300, Run: tables,
			Rule: "descriptors, tables and mixer headers with names of every length up to 300 and every stream combination, parsed with an independent section reader and CRC; distinct by operation sequence and name lengths",
			Need: []string{"PAT checked", "PMT checked", "SDT checked", "names refused", "mixer tables checked"}},
		{ID: "T05", Level: "exploration", Quick: 300000, Thorough: 12000000, Directed: 28, Run: timeline,
			Rule:   "interleaved audio and video timelines (steady, jittered, jumping, wrapping) at all sample rates through the mixer; stamps read from the output and compared with an integer model; distinct by rate and step classes",
			Assume: []string{"frame durations are whole 90 kHz ticks, rounded down; after a change of sample rate only the tolerance is checked for one frame"},
			Need:   []string{"video stamps compared", "audio frames in a run", "audio restarts", "audio at the tolerance limit"}},
		{ID: "X04", Level: "exploration", Quick: 60000, Thorough: 2000000, Run: relays,
			Rule: "histories of published packets demuxed once and handed to a cache and to FLV, TS and failing outputs that join at any time; every output compared byte for byte (FLV) or frame by frame (TS) with what was published; distinct by cache size and sequence of packet kinds and joins",
			Need: []string{"packets published", "viewers joined late", "cached packets compared", "live FLV tags compared", "TS video frames compared", "TS audio frames compared", "groups evicted", "refused packets"}},
	}
}

type checks struct{ structure, payload, times bool }

// frame is what one Mux call was given.
type frame struct {
	audio, key bool
	payload    []byte
	pts, dts   int64
	timed      bool // pts and dts are known
	mp3        bool
}

// observer follows the output of one muxer.
type observer struct {
	c     *mon.C
	k     checks
	cc    map[int]int
	ops   []byte
	times func(f frame, p pes)
}

func newObserver(c *mon.C, k checks) *observer { return &observer{c: c, k: k, cc: map[int]int{}} }

// frame judges the packets one Mux call wrote.
func (o *observer) frame(f frame, out []byte) {
	c := o.c
	if len(out) == 0 || len(out)%188 != 0 {
		c.Fail("frame of %d bytes (key %v, audio %v) became %d bytes of output", len(f.payload), f.key, f.audio, len(out))
	}
	pid := videoPID
	if f.audio {
		pid = audioPID
	}
	var data []byte
	first := tsPacket{}
	for i := 0; i < len(out); i += 188 {
		p, err := parsePacket(out[i : i+188])
		if err != nil {
			c.Fail("packet %d of a frame of %d bytes: %v: %x", i/188, len(f.payload), err, out[i:i+188])
		}
		if i == 0 {
			first = p
		}
		if p.pid != pid {
			c.Fail("frame written on PID %#x, want %#x", p.pid, pid)
		}
		flags, pcr, base, ext, err := p.adaptation()
		if o.k.structure {
			if p.start != (i == 0) {
				c.Fail("packet %d of a frame has unit start %v", i/188, p.start)
			}
			if err != nil {
				c.Fail("packet %d of a frame of %d bytes: %v: %x", i/188, len(f.payload), err, out[i:i+188])
			}
			if flags != 0 && !(flags&^0x50 == 0 && i == 0 && f.key) {
				c.Fail("packet %d of a frame (key %v): adaptation field flags %02x", i/188, f.key, flags)
			}
			if last, ok := o.cc[pid]; ok {
				if p.cc != (last+1)&15 {
					c.Fail("continuity counter on PID %#x went from %d to %d", pid, last, p.cc)
				}
				c.Event("counter steps checked")
			}
			c.Event("packets checked")
		}
		if o.k.times {
			if pcr != (i == 0 && f.key) {
				c.Fail("packet %d of a frame (key %v): PCR present %v", i/188, f.key, pcr)
			}
			if pcr {
				if err != nil {
					c.Fail("PCR packet: %v", err)
				}
				if flags&0x40 == 0 {
					c.Fail("key frame without random access flag: %02x", flags)
				}
				if f.timed && (base != uint64(f.dts)&mod33 || ext != 0) {
					c.Fail("PCR %d extension %d, decode time %d (%d)", base, ext, uint64(f.dts)&mod33, f.dts)
				}
				c.Event("PCR compared")
			}
		}
		o.cc[pid] = p.cc
		data = append(data, p.payload...)
	}
	o.ops = append(o.ops, byte(len(out)/188))

	// finding K2: the stuffing of a small key frame sits in the payload
	if f.key && len(out) == 188 && len(first.af) == 7 && first.af[0] == 0x50 && len(data) == 176 && len(data) > 3 && data[0] != 0 {
		n := int(data[0]) + 1
		ok := n < len(data) && bytes.HasPrefix(data[n:], []byte{0, 0, 1, 0xe0})
		for i := 1; ok && i < n; i++ {
			want := byte(0xff)
			if i == 1 {
				want = 0
			}
			ok = data[i] == want
		}
		if ok {
			c.Known("K2", "key frame of %d bytes: stuffing before the PES packet: %x", len(f.payload), out)
			data = data[n:]
		}
	} else if f.key && len(out) == 188 && len(first.af) == 7 && len(data) == 176 && data[0] == 0 && bytes.HasPrefix(data[1:], []byte{0, 0, 1, 0xe0}) {
		c.Known("K2", "key frame of %d bytes: stuffing before the PES packet: %x", len(f.payload), out)
		data = data[1:]
	}

	p, err := parsePES(data)
	if err != nil {
		if o.k.structure && !o.k.payload && !o.k.times {
			return // not this property's business
		}
		c.Fail("frame of %d bytes (key %v, audio %v): %v: %s", len(f.payload), f.key, f.audio, err, mon.Hex(data))
	}
	if o.k.payload {
		id := byte(0xe0)
		if f.audio {
			id = 0xc0
		}
		if p.id != id {
			c.Fail("stream id %02x, want %02x", p.id, id)
		}
		n := len(data) - 6
		if n > 0xffff {
			n = 0
			c.Event("frames above 16 bits of PES length")
		}
		if p.length != n {
			c.Fail("PES length %d, want %d", p.length, n)
		}
		if f.mp3 && len(p.payload) == 0 {
			c.Known("K9", "MP3 frame of %d bytes has an empty payload", len(f.payload))
		} else if !bytes.Equal(p.payload, f.payload) {
			c.Fail("payload of a frame (key %v, audio %v): %s", f.key, f.audio, mon.Diff(p.payload, f.payload))
		}
		c.Event("frames compared")
	}
	if o.k.times && f.timed {
		if !p.hasPTS || p.pts != uint64(f.pts)&mod33 {
			c.Fail("PTS %d (present %v), presentation time %d (%d)", p.pts, p.hasPTS, uint64(f.pts)&mod33, f.pts)
		}
		c.Event("PTS compared")
		if f.pts < 0 || f.dts < 0 {
			c.Event("negative times")
		}
		if f.pts > mod33 || f.dts > mod33 {
			c.Event("times beyond 33 bits")
		}
		need := !f.audio && f.pts != f.dts
		if need && uint64(f.pts-f.dts)&mod33 == 0 {
			need = p.hasDTS // equal in 33 bits: either form says the same
		}
		if p.hasDTS != need {
			c.Fail("DTS present %v, audio %v, presentation %d, decode %d", p.hasDTS, f.audio, f.pts, f.dts)
		}
		if p.hasDTS {
			if p.dts != uint64(f.dts)&mod33 {
				c.Fail("DTS %d, decode time %d (%d)", p.dts, uint64(f.dts)&mod33, f.dts)
			}
			c.Event("DTS compared")
		}
	}
	if o.times != nil {
		o.times(f, p)
	}
}

// table follows the counter of a table PID between frames.
func (o *observer) table(b []byte) {
	p, err := parsePacket(b)
	if err != nil {
		o.c.Fail("table packet: %v: %x", err, b)
	}
	if p.pid == videoPID || p.pid == audioPID {
		o.c.Fail("table written on PID %#x", p.pid)
	}
	if last, ok := o.cc[p.pid]; ok && o.k.structure {
		if p.cc != (last+1)&15 {
			o.c.Fail("continuity counter on table PID %#x went from %d to %d", p.pid, last, p.cc)
		}
		o.c.Event("counter steps checked")
	}
	o.cc[p.pid] = p.cc
	o.c.Event("tables between frames")
}

func clock(c *mon.C) int64 {
	switch c.N(6) {
	case 0:
		return mon.Pick(c, int64(0), 1, -1, 1<<33-1, 1<<33, 1<<33+1, 1<<32, 1<<32-1, 1<<30, 1<<15, 1<<15-1, 1<<29, -1<<33, 1<<40, 1<<62, -1<<63, 1<<63-1)
	case 1:
		return int64(c.Uint64())
	case 2:
		return int64(c.Uint64N(1 << 33))
	case 3:
		return int64(c.Uint64N(1<<36)) - 1<<35
	}
	return int64(c.N(1 << 30))
}

func sizeOf(c *mon.C) int {
	n := c.Size(1200, 0, 157, 162, 165, 170, 176, 184, 340, 368)
	if c.P(1) {
		n = mon.Pick(c, 65507, 65512, 65517, 65520, 65521, 65522, 65523, 65526, 65527, 65528, 65535, 65536, 70000, 131072, 300000)
	}
	return n
}

// raw muxes one frame with the muxer itself.
func (o *observer) raw(m *ts.Muxer, w *bytes.Buffer, kind, size int) {
	c := o.c
	f := frame{payload: c.Bytes(size), timed: true, audio: kind == 2, key: kind == 0}
	f.dts, f.pts = clock(c), 0
	f.pts = f.dts
	if c.P(60) {
		f.pts = clock(c)
		if c.P(50) {
			f.pts = f.dts + int64(c.Range(-100000, 100000))
		}
	}
	g := kit.Guard(f.payload)
	p := &packet.Packet{Type: packet.PktVideo, Media: g.S, Header: &media.Hdr{Key: f.key, Inter: !f.key, Avc: true, IsAAC: c.P(50)}}
	if f.audio {
		p.Type = packet.PktAudio
		if c.P(50) {
			p.Header = nil
		}
	}
	at := w.Len()
	var err error
	c.Try("Mux", func() { err = m.Mux(p, f.dts, f.pts, w) })
	c.Note("Mux(audio %v, key %v, %d bytes, dts %d, pts %d) = %v", f.audio, f.key, size, f.dts, f.pts, err)
	if err != nil {
		c.Fail("frame of %d bytes refused: %v", size, err)
	}
	if s := g.Check(); s != "" {
		c.Fail("Mux changed the payload: %s", s)
	}
	o.ops = append(o.ops, byte('a'+kind))
	if o.k.times {
		o.ops = append(o.ops, class(f.pts), class(f.dts))
	}
	o.frame(f, w.Bytes()[at:])
}

func class(t int64) byte {
	switch {
	case t < 0:
		return '-'
	case t > mod33:
		return '+'
	case t >= 1<<32:
		return '2'
	case t >= 1<<30:
		return '1'
	}
	return '0'
}

func (o *observer) refuse(mux func(p *packet.Packet) error, w *bytes.Buffer) {
	c := o.c
	p := &packet.Packet{Type: mon.Pick(c, packet.PktMetadata, 3, 9, -1, 1<<(bits.UintSize/2+1)), Media: c.Bytes(c.N(300)), Header: &media.Hdr{Key: c.P(50), Avc: true, IsAAC: true, AAC: 1}}
	at := w.Len()
	var err error
	c.Try("Mux", func() { err = mux(p) })
	c.Note("Mux(type %d) = %v", p.Type, err)
	if o.k.structure && (err == nil || w.Len() != at) {
		c.Fail("packet of type %d: error %v, %d bytes written", p.Type, err, w.Len()-at)
	}
	c.Event("refused packets")
}

func run(c *mon.C, k checks) {
	o := newObserver(c, k)
	if n, ok := c.Directed(); ok && n >= 1300 { // very long frames
		m, w := ts.NewMuxer(), &bytes.Buffer{}
		o.raw(m, w, 1, []int{1 << 20, 1<<22 + 3, 1<<24 + 11}[n-1300])
		w.Reset()
		o.raw(m, w, 2, 100)
		o.raw(m, w, 0, 2000)
		c.Shape("directed", n)
		return
	} else if ok { // this payload length in every kind of frame
		m, w := ts.NewMuxer(), &bytes.Buffer{}
		for i := 0; i < 4; i++ {
			for kind := 0; kind < 3; kind++ {
				o.raw(m, w, kind, n)
				w.Reset()
			}
			if n%100 == 99 { // and the lengths around the 16-bit limit
				o.raw(m, w, i%3, 65535-3-10-n/100-i)
				o.raw(m, w, i%3, 65535-3-5-n/100+i)
				o.raw(m, w, i%3, 65535+n/100+i)
			}
		}
		c.Shape("directed", n)
		return
	}
	if c.P(50) {
		o.rawHistory()
	} else {
		o.mixerHistory()
	}
	c.Shape(o.ops)
	c.Sample("history %q", o.ops)
}

func (o *observer) rawHistory() {
	c := o.c
	m, w := ts.NewMuxer(), &bytes.Buffer{}
	n, size := c.Range(1, 30), sizeOf
	if c.N(60) == 0 { // a long session, its tables repeated many times
		n = c.Range(100, 400)
		size = func(c *mon.C) int { return c.Range(1, 400) }
		c.Event("long sessions")
	}
	for ; n > 0; n-- {
		if c.P(20) {
			w = &bytes.Buffer{}
		}
		switch c.N(12) {
		case 0:
			o.refuse(func(p *packet.Packet) error { return m.Mux(p, 0, 0, w) }, w)
		case 1:
			o.table(m.PAT())
		case 2:
			o.table(m.PMT(packet.PktAudio, packet.PktVideo))
		case 3:
			o.table(m.SDT(&bytes.Buffer{}))
		default:
			o.raw(m, w, c.N(3), size(c))
		}
	}
}

// mixed is a mixer with its reference codecs.
type mixed struct {
	*observer
	m   *ts.Mixer
	w   *bytes.Buffer
	avc media.AVC
	asc *media.ASC
	// a second output for some of the packets, never looked at
	twin *ts.Mixer
	sent []sent
}

// sent is an accepted packet that may be muxed once more.
type sent struct {
	p        *packet.Packet
	key, mp3 bool
	typ      byte
	body     []byte
}

// demux returns a freshly demuxed packet.
func (x *mixed) demux(typ int, body []byte) *packet.Packet {
	p := &packet.Packet{Type: typ, Data: body}
	if err := flv.NewDemuxer().Demux(p); err != nil {
		x.c.Fail("Demux(%s): %v", mon.Hex(body), err)
	}
	return p
}

// mux gives one packet to the mixer; f is nil when it must be refused.
func (x *mixed) mux(p *packet.Packet, f *frame, what string) {
	c := x.c
	if x.twin != nil && c.P(50) {
		c.Try("Mux to another output", func() { _ = x.twin.Mux(p) })
		c.Event("packets muxed to two outputs")
	}
	at := x.w.Len()
	var err error
	c.Try("Mux", func() { err = x.m.Mux(p) })
	c.Note("Mux(%s, %d bytes) = %v", what, len(p.Data), err)
	x.ops = append(x.ops, what[0])
	out := x.w.Bytes()[at:]
	if f == nil {
		if x.k.structure && (err == nil || len(out) > 0) {
			c.Fail("%s: error %v, %d bytes written", what, err, len(out))
		}
		c.Event("refused packets")
		return
	}
	if err != nil {
		c.Fail("%s (%s) refused: %v", what, mon.Hex(p.Data), err)
	}
	x.frame(*f, out)
	if x.k.payload {
		c.Event("mixer frames compared")
	}
}

func (x *mixed) saveAVC() {
	c := x.c
	k := media.NewConfigLen(c, mon.Pick(c, 4, 4, 4, 2, 1))
	at := x.w.Len()
	var err error
	c.Try("SaveAVCHeader", func() { err = x.m.SaveAVCHeader(x.demux(packet.PktVideo, media.VideoTag(true, 0, 0, k.Record))) })
	if err != nil || x.w.Len() != at {
		c.Fail("SaveAVCHeader(%s): %v, %d bytes written", mon.Hex(k.Record), err, x.w.Len()-at)
	}
	c.Note("SaveAVCHeader")
	x.avc.Set(k)
	x.ops = append(x.ops, 'S')
	c.Event("saved headers between frames")
}

func (x *mixed) saveAAC() {
	c := x.c
	a := media.NewASC(c)
	at := x.w.Len()
	var err error
	c.Try("SaveAACHeader", func() { err = x.m.SaveAACHeader(x.demux(packet.PktAudio, media.AACTag(0, a.Record))) })
	if err != nil || x.w.Len() != at {
		c.Fail("SaveAACHeader(%x): %v, %d bytes written", a.Record, err, x.w.Len()-at)
	}
	c.Note("SaveAACHeader")
	x.asc = &a
	x.ops = append(x.ops, 'A')
	c.Event("saved headers between frames")
}

func (x *mixed) header() {
	c := x.c
	at := x.w.Len()
	var err error
	c.Try("SetTsHeader", func() { err = x.m.SetTsHeader() })
	if err != nil {
		c.Fail("SetTsHeader: %v", err)
	}
	out := x.w.Bytes()[at:]
	if len(out) != 3*188 {
		c.Fail("SetTsHeader wrote %d bytes", len(out))
	}
	for i := 0; i < 3; i++ {
		x.table(out[i*188 : i*188+188])
	}
	x.ops = append(x.ops, 'H')
}

func (o *observer) mixerHistory() {
	c := o.c
	x := &mixed{observer: o, w: &bytes.Buffer{}}
	x.m = ts.NewMixer(x.w)
	mp3 := c.P(10)
	if c.P(40) {
		x.twin = ts.NewMixer(&bytes.Buffer{})
		if err := x.twin.SaveAACHeader(x.demux(packet.PktAudio, media.AACTag(0, media.NewASC(c).Record))); err != nil {
			c.Fail("SaveAACHeader: %v", err)
		}
	}
	n := c.Range(1, 30)
	every := 0 // tables are written again after so many packets
	if c.N(60) == 0 {
		n, every = c.Range(100, 300), c.Range(1, 8)
		c.Event("long sessions")
	}
	for ; n > 0; n-- {
		if every > 0 && n%every == 0 {
			x.header()
		}
		if len(x.sent) > 0 && c.P(10) {
			x.again(x.sent[c.N(len(x.sent))])
			continue
		}
		switch c.N(14) {
		case 0:
			x.saveAVC()
		case 1:
			if !mp3 {
				x.saveAAC()
			}
		case 2:
			x.header()
		case 3:
			x.w = &bytes.Buffer{}
			x.m.SetWriter(x.w)
		case 4:
			x.refuse(x.m.Mux, x.w)
		case 5: // refused media
			switch c.N(4) {
			case 0:
				x.mux(x.demux(packet.PktVideo, append([]byte{0x14, 1, 0, 0, 0}, c.Bytes(20)...)), nil, "x other codec")
			case 1:
				if x.asc == nil {
					x.mux(x.demux(packet.PktAudio, media.AACTag(1, c.Bytes(20))), nil, "x early audio")
				}
			case 2:
				x.mux(x.demux(packet.PktAudio, media.AACTag(1, make([]byte, media.MaxADTS+1+c.N(10)))), nil, "x long audio")
			default:
				au, bad, _ := media.AU(c, media.AUOptions{IDR: 50, Bad: 100, Small: true, Len: x.avc.Len})
				if _, ok := x.avc.Convert(au); bad != media.Good && !ok {
					x.mux(x.demux(packet.PktVideo, media.VideoTag(c.P(50), 1, 0, au)), nil, "x bad unit")
				}
			}
		case 6: // a sequence header in the stream
			k := media.NewConfigLen(c, mon.Pick(c, 4, 4, 4, 2, 1))
			key := true
			x.video(key, 0, k.Record, nil)
			x.avc.Set(k)
		case 7, 8, 9:
			if mp3 {
				b := media.MP3(c, c.N(3))
				if i := b[2] >> 1 & 3; i == 3 {
					continue // refused by finding K1
				}
				p := x.demux(packet.PktAudio, media.MP3Tag(b))
				x.mux(p, &frame{audio: true, mp3: true, payload: b}, "p MP3 frame")
				x.sent = append(x.sent, sent{p: p, mp3: true, body: b})
				continue
			}
			if x.asc == nil {
				x.saveAAC()
			}
			b := c.Bytes(max(1, c.Size(1000, 170, 350, 8184-13)))
			if c.P(3) {
				b = c.Bytes(media.MaxADTS - c.N(3))
			}
			p := x.demux(packet.PktAudio, media.AACTag(1, b))
			x.mux(p, &frame{audio: true, payload: x.asc.ADTS(b)}, "a AAC frame")
			x.sent = append(x.sent, sent{p: p, body: b})
		default:
			au, _, _ := media.AU(c, media.AUOptions{IDR: 50, Sets: 10, Small: c.P(95), Len: x.avc.Len})
			want, ok := x.avc.Convert(au)
			if !ok {
				c.Fail("reference refuses a generated unit %s", mon.Hex(au))
			}
			x.video(c.P(50), 1, au, want)
		}
	}
}

// again muxes a packet once more, as another replay of a cache does.
func (x *mixed) again(s sent) {
	x.c.Event("packets muxed again")
	switch {
	case s.mp3:
		x.mux(s.p, &frame{audio: true, mp3: true, payload: s.body}, "p MP3 frame again")
	case s.p.Type == packet.PktAudio:
		x.mux(s.p, &frame{audio: true, payload: x.asc.ADTS(s.body)}, "a AAC frame again")
	default:
		want, ok := x.avc.Convert(s.body)
		if !ok { // written for lengths of another size
			x.mux(s.p, nil, "x unit of an earlier configuration")
			return
		}
		x.timed(s.p, s.key, s.typ, s.body, want)
	}
}

// video updates the times and muxes a video tag.
func (x *mixed) video(key bool, typ byte, body, want []byte) {
	x.timed(nil, key, typ, body, want)
}

func (x *mixed) timed(p *packet.Packet, key bool, typ byte, body, want []byte) {
	c := x.c
	t, off := c.Uint32(), uint32(int32(c.Range(-2000, 2000)))
	if c.P(30) {
		t, off = uint32(c.N(100000)), c.Uint32()
	}
	if c.P(30) {
		off = 0
	}
	if p == nil {
		p = x.demux(packet.PktVideo, media.VideoTag(key, typ, int32(off)<<8>>8, body))
		if typ == 1 {
			x.sent = append(x.sent, sent{p: p, key: key, typ: typ, body: body})
		}
	}
	if err := x.m.Update(p, t, off); err != nil {
		c.Fail("Update(video, %d, %d): %v", t, off, err)
	}
	f := &frame{key: key, payload: want, timed: true, dts: 90 * int64(t), pts: 90 * (int64(t) + int64(int32(off)))}
	x.mux(p, f, fmt.Sprintf("%c video key %v type %d", 'v'+btoi(key), key, typ))
}

func btoi(b bool) byte {
	if b {
		return 1
	}
	return 0
}
