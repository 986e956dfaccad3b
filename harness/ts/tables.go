package ts

import (
	"bytes"
	"strings"

	"github.com/moggle-mog/goav/amf"
	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/container/ts/table"
	"github.com/moggle-mog/goav/packet"

	"verif/media"
	"verif/mon"
)

// maxDesc is the longest descriptor loop one SDT packet holds:
// 188 - 4 header - 1 pointer - 3 - 8 section header - 5 service - 4 CRC... all of it fixed by the standard.
const maxDesc = 188 - 4 - 1 - 8 - 3 - 5 - 4

func name(c *mon.C, n int) string {
	b := c.Bytes(n)
	return string(b)
}

func nameLen(c *mon.C) int {
	if c.N(400) == 0 { // far beyond every limit
		return mon.Pick(c, 511, 512, 600, 1000, 4096, 65535, 65536, 65536+c.N(200), 2*65536+c.N(100))
	}
	return c.Size(300, 0, 76, 79, 126, 127, 128, 152, 153, 160, 252, 255, 256)
}

// tableState follows the tables of one muxer.
type tableState struct {
	c    *mon.C
	cc   map[int]int
	tsid int
	ops  []byte
	lens []int
}

func (t *tableState) step(pid, cc int) {
	if last, ok := t.cc[pid]; ok && cc != (last+1)&15 {
		t.c.Fail("table on PID %#x: counter went from %d to %d", pid, last, cc)
	}
	t.cc[pid] = cc
}

func (t *tableState) pat(b []byte) {
	c := t.c
	tsid, progs, cc, err := parsePAT(b)
	if err != nil {
		c.Fail("PAT: %v: %x", err, b)
	}
	if len(progs) != 1 || progs[1] != pmtPID {
		c.Fail("PAT programs %v", progs)
	}
	t.id(tsid)
	t.step(0, cc)
	c.Event("PAT checked")
}

func (t *tableState) id(tsid int) {
	if t.tsid >= 0 && t.tsid != tsid {
		t.c.Fail("transport stream id %d in one table, %d in another", tsid, t.tsid)
	}
	t.tsid = tsid
}

func (t *tableState) pmt(b []byte, types []int) {
	c := t.c
	m, cc, err := parsePMT(b)
	if err != nil {
		c.Fail("PMT%v: %v: %x", types, err, b)
	}
	if m.program != 1 {
		c.Fail("PMT of program %d", m.program)
	}
	want := map[stream]bool{}
	video, audio, last := false, false, -1
	for _, v := range types {
		switch v {
		case packet.PktVideo:
			want[stream{0x1b, videoPID}] = true
			video, last = true, v
		case packet.PktAudio:
			want[stream{0x0f, audioPID}] = true
			audio, last = true, v
		}
	}
	got := map[stream]bool{}
	for _, s := range m.streams {
		got[s] = true
		if !want[s] {
			c.Fail("PMT%v lists stream type %#x on PID %#x", types, s.typ, s.pid)
		}
	}
	if len(m.streams) != len(want) || len(got) != len(want) {
		c.Fail("PMT%v lists %v", types, m.streams)
	}
	switch {
	case video && m.pcr != videoPID:
		if m.pcr == audioPID && audio && last == packet.PktAudio {
			c.Known("K3", "PMT%v names %#x as PCR PID", types, m.pcr)
		} else {
			c.Fail("PMT%v names %#x as PCR PID", types, m.pcr)
		}
	case !video && audio && m.pcr != audioPID && m.pcr != 0x1fff:
		c.Fail("PMT%v names %#x as PCR PID", types, m.pcr)
	}
	t.step(pmtPID, cc)
	c.Event("PMT checked")
}

func (t *tableState) sdt(b []byte) []byte {
	c := t.c
	tsid, service, desc, cc, err := parseSDT(b)
	if err != nil {
		c.Fail("SDT: %v: %x", err, b)
	}
	if service != 1 {
		c.Fail("SDT describes service %d, the program is 1", service)
	}
	t.id(tsid)
	t.step(sdtPID, cc)
	c.Event("SDT checked")
	return desc
}

// describe fills a descriptor buffer and checks every entry.
func (t *tableState) describe(n int) *bytes.Buffer {
	c := t.c
	d := table.NewDescriptor()
	if c.P(10) {
		n = 0
	}
	for ; n > 0; n-- {
		before := append([]byte(nil), d.GetBuffer().Bytes()...)
		var err error
		fits := true
		var check func(added []byte)
		what := ""
		switch c.N(4) {
		case 0, 1:
			typ, p, s := byte(c.N(256)), name(c, nameLen(c)), name(c, nameLen(c))
			if c.P(25) { // around the limits
				k := c.Range(0, 255)
				p = name(c, k)
				s = name(c, max(0, mon.Pick(c, 252, 253, 251, 256, 158, 159, 157)-k))
			}
			fits = len(p)+len(s)+3 <= 255
			what = "Service"
			t.lens = append(t.lens, len(p), len(s))
			c.Try(what, func() { err = d.Service(typ, p, s) })
			check = func(b []byte) {
				gt, gp, gs, rest, e := serviceDescriptor(b)
				if e != nil || gt != typ || gp != p || gs != s || len(rest) != 0 {
					c.Fail("Service(%d, %q, %q) wrote %x: %v", typ, p, s, b, e)
				}
			}
		case 2:
			s := name(c, nameLen(c))
			fits = len(s) <= 255
			what = "NetworkName"
			t.lens = append(t.lens, len(s))
			c.Try(what, func() { err = d.NetworkName(s) })
			check = func(b []byte) {
				if len(b) != len(s)+2 || b[0] != 0x40 || int(b[1]) != len(s) || string(b[2:]) != s {
					c.Fail("NetworkName(%q) wrote %x", s, b)
				}
			}
		default:
			avail, code := c.P(50), c.Uint32()
			what = "CountryAvailability"
			c.Try(what, func() { err = d.CountryAvailability(avail, code) })
			check = func(b []byte) {
				flag := byte(0)
				if avail {
					flag = 0x80
				}
				if len(b) < 3 || b[0] != 0x49 || b[2]&0x80 != flag {
					c.Fail("CountryAvailability(%v, %#x) wrote %x", avail, code, b)
				}
				if int(b[1]) != len(b)-2 {
					if b[1] == 4 && len(b) == 7 {
						c.Known("K4", "CountryAvailability(%v, %#x) wrote %x", avail, code, b)
					} else {
						c.Fail("CountryAvailability(%v, %#x) claims %d bytes and has %d", avail, code, b[1], len(b)-2)
					}
				}
			}
		}
		c.Note("%s = %v", what, err)
		t.ops = append(t.ops, what[0])
		now := d.GetBuffer().Bytes()
		if !bytes.HasPrefix(now, before) {
			c.Fail("%s changed earlier descriptors", what)
		}
		if !fits {
			if err == nil || len(now) != len(before) {
				c.Fail("%s with names that do not fit: error %v, wrote %d bytes", what, err, len(now)-len(before))
			}
			c.Event("names refused")
			continue
		}
		if err != nil {
			c.Fail("%s refused names that fit: %v", what, err)
		}
		check(now[len(before):])
	}
	return d.GetBuffer()
}

func tables(c *mon.C) {
	t := &tableState{c: c, cc: map[int]int{}, tsid: -1}
	if k, ok := c.Directed(); ok {
		t.lengths(k)
		return
	}
	if c.P(50) {
		t.rawTables()
	} else {
		t.mixerTables()
	}
	c.Shape(t.ops, t.lens)
	c.Sample("operations %s, name lengths %v", t.ops, t.lens)
}

var typeLists = [][]int{{}, {packet.PktVideo}, {packet.PktAudio}, {packet.PktVideo, packet.PktAudio}, {packet.PktAudio, packet.PktVideo},
	{packet.PktMetadata}, {packet.PktVideo, packet.PktMetadata}, {packet.PktMetadata, packet.PktAudio}, {packet.PktAudio, packet.PktMetadata, packet.PktVideo}}

func (t *tableState) rawTables() {
	c := t.c
	m := ts.NewMuxer()
	var b []byte
	n := c.Range(1, 40)
	if c.N(200) == 0 { // beyond what a byte counts
		n = c.Range(600, 2500)
	}
	for ; n > 0; n-- {
		switch c.N(8) {
		case 0, 1:
			c.Try("PAT", func() { b = append([]byte(nil), m.PAT()...) })
			t.pat(b)
			t.ops = append(t.ops, 'p')
		case 2, 3, 4:
			types := append([]int(nil), mon.Pick(c, typeLists...)...)
			c.Try("PMT", func() { b = append([]byte(nil), m.PMT(types...)...) })
			t.pmt(b, types)
			t.ops = append(t.ops, 'm')
			for _, v := range types {
				t.ops = append(t.ops, byte('0'+v))
			}
		case 5, 6:
			desc := t.describe(c.Range(0, 3))
			want := append([]byte(nil), desc.Bytes()...)
			c.Try("SDT", func() { b = append([]byte(nil), m.SDT(desc)...) })
			got := t.sdt(b)
			if len(want) <= maxDesc && !bytes.Equal(got, want) {
				c.Fail("SDT descriptors: %s", mon.Diff(got, want))
			}
			if len(want) > maxDesc && len(got) != 0 && !bytes.HasPrefix(want, got) {
				c.Fail("SDT for %d bytes of descriptors holds %x", len(want), got)
			}
			if !bytes.Equal(desc.Bytes(), want) {
				c.Fail("SDT changed the descriptors given")
			}
			t.ops = append(t.ops, 's')
		default: // frames between tables
			_ = m.Mux(&packet.Packet{Type: packet.PktVideo, Media: c.Bytes(300), Header: &media.Hdr{Key: true}}, 0, 0, &bytes.Buffer{})
			t.ops = append(t.ops, 'f')
		}
	}
}

// saved is the metadata in force in a mixer.
type saved struct {
	any                bool
	provider, service  string
	hasProv, hasServ   bool
	refused, succeeded int
}

func (t *tableState) mixerTables() {
	c := t.c
	x := &mixed{observer: newObserver(c, checks{}), w: &bytes.Buffer{}}
	x.m = ts.NewMixer(x.w)
	var s saved
	video, audio := false, false
	for n := c.Steps(2, 30); n > 0; n-- {
		switch c.N(10) {
		case 0:
			x.saveAVC()
			video = true
			t.ops = append(t.ops, 'V')
		case 1:
			x.saveAAC()
			audio = true
			t.ops = append(t.ops, 'A')
		case 2: // a refused sequence header announces no stream
			if c.P(50) {
				if err := x.m.SaveAVCHeader(x.demux(packet.PktVideo, media.VideoTag(true, 0, 0, media.BadConfig(c)))); err == nil {
					c.Fail("bad AVC header saved")
				}
			} else if err := x.m.SaveAACHeader(x.demux(packet.PktAudio, media.AACTag(0, media.BadASC(c)))); err == nil {
				c.Fail("bad AAC header saved")
			}
			t.ops = append(t.ops, 'x')
		case 3, 4:
			t.saveMeta(x.m, &s, nameLen(c), nameLen(c))
		case 5:
			if video {
				x.mux(x.demux(packet.PktVideo, media.VideoTag(true, 1, 0, media.Unit(x.avc.Len, append([]byte{0x65}, make([]byte, 254)...)))),
					&frame{key: true}, "f key frame")
			}
		default:
			t.mixerHeader(x, &s, video, audio)
		}
	}
	t.mixerHeader(x, &s, video, audio)
}

func (t *tableState) saveMeta(m *ts.Mixer, s *saved, lp, ls int) {
	c := t.c
	md := amf.Object{"other": 1.0, "width": 3.0}
	var n saved
	n.any = true
	if c.P(85) {
		n.provider, n.hasProv = name(c, lp), true
		md["Provider"] = n.provider
	}
	if c.P(85) {
		n.service, n.hasServ = name(c, ls), true
		md["Service"] = n.service
	}
	if c.P(5) {
		md["Provider"], n.hasProv = 5.0, false
	}
	var err error
	c.Try("SaveMetadata", func() { err = m.SaveMetadata(md) })
	c.Note("SaveMetadata(provider %v %d bytes, service %v %d bytes) = %v", n.hasProv, lp, n.hasServ, ls, err)
	t.ops = append(t.ops, 'M')
	t.lens = append(t.lens, lp, ls)
	if n.hasProv && n.hasServ {
		fits := 5+len(n.provider)+len(n.service) <= maxDesc
		if fits != (err == nil) {
			c.Fail("SaveMetadata with names of %d and %d bytes: %v", len(n.provider), len(n.service), err)
		}
	}
	if err != nil {
		c.Event("names refused")
		return
	}
	*s = n
}

func (t *tableState) mixerHeader(x *mixed, s *saved, video, audio bool) {
	c := t.c
	at := x.w.Len()
	var err error
	c.Try("SetTsHeader", func() { err = x.m.SetTsHeader() })
	if err != nil {
		c.Fail("SetTsHeader: %v", err)
	}
	t.ops = append(t.ops, 'H')
	out := x.w.Bytes()[at:]
	if len(out) != 3*188 {
		c.Fail("SetTsHeader wrote %d bytes", len(out))
	}
	seen := map[int]bool{}
	for i := 0; i < 3; i++ {
		b := out[188*i : 188*i+188]
		p, err := parsePacket(b)
		if err != nil {
			c.Fail("table packet: %v: %x", err, b)
		}
		seen[p.pid] = true
		switch p.pid {
		case 0:
			t.pat(b)
		case pmtPID:
			var types []int
			if video {
				types = append(types, packet.PktVideo)
			}
			if audio {
				types = append(types, packet.PktAudio)
			}
			t.pmt(b, types)
		case sdtPID:
			desc := t.sdt(b)
			if !s.any {
				if err := descriptors(desc); err != nil {
					c.Fail("SDT: %v", err)
				}
				break
			}
			typ, prov, serv, rest, err := serviceDescriptor(desc)
			if err != nil || typ != 1 || descriptors(rest) != nil {
				c.Fail("SDT descriptors %x: service type %d, %v", desc, typ, err)
			}
			if s.hasProv && prov != s.provider || s.hasServ && serv != s.service {
				c.Fail("SDT names provider %q and service %q, given %q and %q", prov, serv, s.provider, s.service)
			}
		default:
			c.Fail("table on PID %#x", p.pid)
		}
	}
	if len(seen) != 3 {
		c.Fail("SetTsHeader wrote tables on PIDs %v", seen)
	}
	c.Event("mixer tables checked")
}

// lengths tries provider names of k bytes with every service name length.
func (t *tableState) lengths(k int) {
	c := t.c
	m := ts.NewMuxer()
	for n := 0; n <= 260; n++ {
		p, s := strings.Repeat("p", k), strings.Repeat("s", n)
		d := table.NewDescriptor()
		err := d.Service(1, p, s)
		if (err == nil) != (k+n+3 <= 255) {
			c.Fail("Service names of %d and %d bytes: %v", k, n, err)
		}
		if err != nil {
			c.Event("names refused")
			if d.GetBuffer().Len() != 0 {
				c.Fail("refused names left %d bytes", d.GetBuffer().Len())
			}
		} else {
			_, gp, gs, rest, err := serviceDescriptor(d.GetBuffer().Bytes())
			if err != nil || gp != p || gs != s || len(rest) > 0 {
				c.Fail("Service names of %d and %d bytes: %v", k, n, err)
			}
			var b []byte
			c.Try("SDT", func() { b = append([]byte(nil), m.SDT(d.GetBuffer())...) })
			got := t.sdt(b)
			if d.GetBuffer().Len() <= maxDesc && !bytes.Equal(got, d.GetBuffer().Bytes()) {
				c.Fail("SDT with names of %d and %d bytes: %x", k, n, got)
			}
		}
		if n%8 == k%8 {
			mx := ts.NewMixer(&bytes.Buffer{})
			err := mx.SaveMetadata(amf.Object{"Provider": p, "Service": s})
			if (err == nil) != (k+n+5 <= maxDesc) {
				c.Fail("SaveMetadata with names of %d and %d bytes: %v", k, n, err)
			}
		}
	}
	c.Shape("directed", k)
}
