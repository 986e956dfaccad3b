// Package gop monitors the GOP cache.
package gop

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"weak"

	"github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/gop"
	"github.com/moggle-mog/goav/packet"

	"verif/media"
	"verif/mon"
)

// Props lists the properties of this area.
func Props() []*mon.Prop {
	return []*mon.Prop{
		{ID: "G01", Level: "exploration", Quick: 600000, Thorough: 20000000, Directed: 32, Run: replay,
			Rule:   "histories of headers, metadata, key, inter and other packets for caches of 0 to 40 groups (directed: up to 1000), replayed at random points and compared by packet identity with a list model; distinct by group count and operation sequence",
			Assume: []string{"end-of-sequence packets are not submitted; group counts are not negative"},
			Need:   []string{"replays compared", "groups evicted", "inter frames before a key frame", "replays of an empty cache"}},
		{ID: "G02", Level: "exploration", Quick: 150000, Thorough: 5000000, Directed: 100, Run: bounded,
			Rule:   "histories that fill groups to and beyond 1024 packets, replays cut short at every or a random write, and the packets a garbage collection leaves alive; distinct by group sizes, fault positions and operation sequence",
			Assume: []string{"end-of-sequence packets are not submitted"},
			Need:   []string{"packets refused above 1024", "packets let go", "replays cut short", "replays compared", "groups evicted"}},
	}
}

type snap struct {
	p   *packet.Packet
	val packet.Packet
	dat []byte
}

// sink records packets and can fail at one of them.
type sink struct {
	got    []*packet.Packet
	failAt int
	err    error
	after  int
	failed bool
}

func (s *sink) Write(p *packet.Packet) error {
	if s.failed {
		s.after++
		return s.err
	}
	if len(s.got) == s.failAt {
		s.failed = true
		return s.err
	}
	s.got = append(s.got, p)
	return nil
}

type model struct {
	c               *mon.C
	cache           *gop.Cache
	n               int
	meta, vsh, ash  *packet.Packet
	groups          [][]*packet.Packet
	snaps           []snap
	ops             []byte
	serial          int
	number          map[*packet.Packet]int
	last            []byte
	refused, evicts int
}

func newModel(c *mon.C, n int) *model {
	return &model{c: c, cache: gop.NewCache(n), n: n, number: map[*packet.Packet]int{}}
}

func (m *model) packet(typ int, body []byte, h *media.Hdr) *packet.Packet {
	c := m.c
	m.serial++
	// bodies of any length, sometimes the same as the one before
	body = append(body, c.Bytes(mon.Pick(c, 0, 0, 1, 3, c.N(40)))...)
	if len(m.last) > 2 && len(body) > 2 && c.P(20) && m.last[0] == body[0] && m.last[1] == body[1] {
		body = append([]byte(nil), m.last...)
	}
	m.last = body
	p := &packet.Packet{Type: typ, Data: body, TimeStamp: mon.Pick(c, uint32(m.serial), uint32(m.serial), 0, 7, ^uint32(c.N(3)), c.Uint32()), Baseline: uint32(c.N(3)), StreamID: c.Uint32()}
	m.number[p] = m.serial
	if c.P(50) && (typ == packet.PktVideo || typ == packet.PktAudio) {
		if err := flv.NewDemuxer().Demux(p); err != nil {
			p.Header = nil
		}
	}
	if p.Header == nil {
		p.Header = h
		p.Media = body
	}
	if p.Header == packet.Header(h) && c.P(4) { // a cache goes by the header alone
		p.Data, p.Media, body = nil, nil, nil
	}
	if len(m.snaps) < 200 {
		m.snaps = append(m.snaps, snap{p, *p, append([]byte(nil), body...)})
	}
	return p
}

func (m *model) write(p *packet.Packet, what string) error {
	var err error
	c := m.c
	direct := c.P(20)
	c.Try("Write", func() {
		switch {
		case direct && p.Type == packet.PktVideo:
			err = m.cache.WriteVideo(p)
		case direct && p.Type == packet.PktAudio:
			err = m.cache.WriteAudio(p)
		default:
			err = m.cache.Write(p)
		}
	})
	c.Note("#%d %s = %v", m.serial, what, err)
	m.ops = append(m.ops, what[0])
	return err
}

func (m *model) key() {
	body := append([]byte{0x17, 1, 0, 0, 0}, byte(m.serial))
	if m.c.P(10) {
		body[0] = 0x12 // other codec
	}
	p := m.packet(packet.PktVideo, body, &media.Hdr{Key: true, Avc: body[0] == 0x17})
	if err := m.write(p, "K key frame"); err != nil {
		m.c.Fail("key frame refused: %v", err)
	}
	if m.n == 0 {
		return
	}
	m.groups = append(m.groups, []*packet.Packet{p})
	if len(m.groups) > m.n {
		m.groups = m.groups[1:]
		m.c.Event("groups evicted")
		m.evicts++
	}
}

func (m *model) inter() {
	p := m.packet(packet.PktVideo, append([]byte{0x27, byte(m.c.N(2)), 0, 0, 0}, byte(m.serial)), &media.Hdr{Inter: true, Avc: true})
	err := m.write(p, "I inter frame")
	if m.n == 0 {
		return // not cached; nothing is promised about the result
	}
	if len(m.groups) == 0 {
		if err == nil {
			m.c.Fail("inter frame before any key frame accepted")
		}
		m.c.Event("inter frames before a key frame")
		return
	}
	g := &m.groups[len(m.groups)-1]
	if len(*g) >= 1024 {
		if err == nil {
			m.c.Fail("packet %d of a group accepted", len(*g)+1)
		}
		m.refused++
		m.c.Event("packets refused above 1024")
		return
	}
	if err != nil {
		m.c.Fail("inter frame %d of a group refused: %v", len(*g)+1, err)
	}
	*g = append(*g, p)
}

func (m *model) other() {
	c := m.c
	b := byte(m.serial)
	switch c.N(7) {
	case 0:
		p := m.packet(packet.PktVideo, []byte{0x17, 0, 0, 0, 0, b}, &media.Hdr{Key: true, Seq: true, Avc: true})
		if err := m.write(p, "V video header"); err != nil {
			c.Fail("video sequence header refused: %v", err)
		}
		m.vsh = p
	case 1:
		p := m.packet(packet.PktAudio, []byte{0xaf, 0, b}, &media.Hdr{IsAAC: true, AACSeq: true})
		if err := m.write(p, "A audio header"); err != nil {
			c.Fail("audio sequence header refused: %v", err)
		}
		m.ash = p
	case 2:
		p := m.packet(packet.PktMetadata, []byte{2, 0, 1, b}, nil)
		p.Header = nil
		if err := m.write(p, "M metadata"); err != nil {
			c.Fail("metadata refused: %v", err)
		}
		m.meta = p
		m.snaps = nil
	case 3: // audio data is not cached
		m.write(m.packet(packet.PktAudio, []byte{0xaf, 1, b}, &media.Hdr{IsAAC: true, AAC: 1}), "a audio frame")
	case 4: // MP3 has no sequence header
		m.write(m.packet(packet.PktAudio, []byte{0x2f, 0, b}, &media.Hdr{IsMP3: true, AACSeq: true}), "m MP3 frame")
	case 5: // video that is neither key nor inter frame
		m.write(m.packet(packet.PktVideo, []byte{0x57, 1, 0, 0, 0, b}, &media.Hdr{Avc: true}), "o other video frame")
	default:
		p := m.packet(mon.Pick(c, 3, 9, -1), []byte{b}, &media.Hdr{Key: true, Seq: true, IsAAC: true, AACSeq: true})
		m.write(p, "? unknown packet type")
	}
}

func (m *model) want() (ps []*packet.Packet) {
	for _, p := range []*packet.Packet{m.meta, m.vsh, m.ash} {
		if p != nil {
			ps = append(ps, p)
		}
	}
	for _, g := range m.groups {
		ps = append(ps, g...)
	}
	return
}

func (m *model) stamps(ps []*packet.Packet) string {
	s := ""
	for i, p := range ps {
		if i == 40 {
			return s + " ..."
		}
		if p == nil {
			s += " nil"
		} else {
			s += fmt.Sprint(" #", m.number[p])
		}
	}
	return s
}

func (m *model) replay(failAt int) {
	c := m.c
	want := m.want()
	s := &sink{failAt: failAt, err: errors.New("sink fault")}
	var err error
	c.Try("SendTo", func() { err = m.cache.SendTo(s) })
	m.ops = append(m.ops, 'R')
	exp := want
	if failAt >= 0 && failAt < len(want) {
		exp = want[:failAt]
		m.ops = append(m.ops, byte(failAt))
		if !errors.Is(err, s.err) {
			c.Fail("replay cut short at packet %d returned %v instead of the writer's error", failAt, err)
		}
		if s.after > 0 {
			c.Fail("replay went on for %d writes after the writer failed", s.after)
		}
		c.Event("replays cut short")
	} else if err != nil {
		c.Fail("replay: %v", err)
	}
	if len(s.got) != len(exp) {
		c.Fail("replay of %d groups (of %d) sent %d packets, want %d: got%s want%s", len(m.groups), m.n, len(s.got), len(exp), m.stamps(s.got), m.stamps(exp))
	}
	for i := range exp {
		if s.got[i] != exp[i] {
			c.Fail("replay of %d groups (of %d): packet %d is not the stored one: got%s want%s", len(m.groups), m.n, i, m.stamps(s.got), m.stamps(exp))
		}
	}
	c.Event("replays compared")
	c.EventN("packets compared", len(exp))
	if len(want) == 0 {
		c.Event("replays of an empty cache")
	}
	for _, k := range m.snaps {
		v := k.val
		if k.p.Type != v.Type || k.p.TimeStamp != v.TimeStamp || k.p.Baseline != v.Baseline || k.p.StreamID != v.StreamID ||
			k.p.Header != v.Header || !bytes.Equal(k.p.Data, k.dat) || !bytes.Equal(k.p.Media, v.Media) {
			c.Fail("stored packet #%d was changed: %+v, was %+v", m.number[k.p], *k.p, v)
		}
	}
}

func replay(c *mon.C) {
	n := c.N(6)
	steps := c.Steps(1, 60)
	if c.P(5) {
		n, steps = c.Range(6, 40), c.Range(50, 400)
	}
	if k, ok := c.Directed(); ok && k >= 24 { // caches of many groups
		n := []int{63, 64, 127, 128, 200, 255, 257, 1000}[k-24]
		m := newModel(c, n)
		for i := 0; i < 2*n+n/3; i++ {
			m.key()
			for j := 0; j < i%3; j++ {
				m.inter()
			}
			if i%97 == 50 || i == n-1 || i == n {
				m.replay(-1)
			}
		}
		m.replay(-1)
		c.Shape("directed", k)
		return
	} else if ok { // around each wrap of the ring
		m := newModel(c, k%12)
		for i := 0; i < 60; i++ {
			if k >= 12 {
				m.other()
			}
			m.key()
			for j := 0; j < i%4; j++ {
				m.inter()
			}
			m.replay(-1)
		}
		c.Shape("directed", k)
		return
	}
	m := newModel(c, n)
	keys := c.Range(5, 60)
	for i := 0; i < steps; i++ {
		switch {
		case c.P(15):
			m.replay(-1)
		case c.P(20):
			m.other()
		case c.P(keys):
			m.key()
		default:
			m.inter()
		}
	}
	m.replay(-1)
	c.Shape(n, m.ops)
	c.Sample("cache of %d groups: %s", n, m.ops)
}

// fill writes groups of the given sizes and other packets, of which it keeps
// weak references only: those the cache must hold on to, and all others.
func fill(c *mon.C, cache *gop.Cache, n, heads int, sizes []int) (kept, gone []weak.Pointer[packet.Packet]) {
	write := func(typ int, h packet.Header) weak.Pointer[packet.Packet] {
		p := &packet.Packet{Type: typ, Header: h, Data: make([]byte, 16)}
		w := weak.Make(p)
		if err := cache.Write(p); err != nil && n > 0 {
			c.Fail("packet of a group refused: %v", err)
		}
		return w
	}
	var last [3]weak.Pointer[packet.Packet]
	var groups [][]weak.Pointer[packet.Packet]
	for _, size := range sizes {
		for j, h := range []packet.Header{nil, &media.Hdr{Key: true, Seq: true, Avc: true}, &media.Hdr{Format: 10, IsAAC: true, AACSeq: true}} {
			for k := heads; k > 0; k-- {
				if last[j] != (weak.Pointer[packet.Packet]{}) {
					gone = append(gone, last[j])
				}
				last[j] = write([]int{packet.PktMetadata, packet.PktVideo, packet.PktAudio}[j], h)
			}
		}
		gone = append(gone, write(packet.PktAudio, &media.Hdr{Format: 10, IsAAC: true, AAC: 1}))
		g := []weak.Pointer[packet.Packet]{write(packet.PktVideo, &media.Hdr{Key: true, Avc: true})}
		for len(g) < size {
			g = append(g, write(packet.PktVideo, &media.Hdr{Inter: true, Avc: true}))
		}
		groups = append(groups, g)
	}
	for i, g := range groups {
		if i < len(groups)-n {
			gone = append(gone, g...)
		} else {
			kept = append(kept, g...)
		}
	}
	return append(kept, last[:]...), gone
}

// retention watches which packets the cache keeps alive.
func retention(c *mon.C, n int) {
	cache := gop.NewCache(n)
	var sizes []int
	// Old packets may stay in reused memory, but in no more than twice what n
	// groups can take.
	full, most := c.P(50), (2*n+2)*1024
	for i := (4*n + 8) * mon.Pick(c, 1, 1, 3); i > 0; i-- {
		if full {
			sizes = append(sizes, 1024)
		} else {
			sizes = append(sizes, mon.Pick(c, 1, 40, 1023, 1024, 1024, c.Range(1, 1024)))
		}
	}
	kept, gone := fill(c, cache, n, mon.Pick(c, 1, 2, 2000), sizes)
	if c.P(50) {
		if err := cache.SendTo(&sink{failAt: -1}); err != nil {
			c.Fail("replay: %v", err)
		}
	}
	runtime.GC()
	held := 0
	for _, w := range gone {
		if w.Value() != nil {
			held++
		}
	}
	if held+len(kept) > most {
		c.Fail("cache of %d groups, groups of %v packets: it holds its %d packets and %d of the %d that left it", n, sizes, len(kept), held, len(gone))
	}
	for i, w := range kept {
		if w.Value() == nil {
			c.Fail("cache of %d groups, groups of %v packets: cached packet %d of %d is gone", n, sizes, i, len(kept))
		}
	}
	runtime.KeepAlive(cache)
	c.EventN("packets kept alive", len(kept))
	c.EventN("packets let go", len(gone)-held)
	c.Shape("retention", n, sizes)
}

func bounded(c *mon.C) {
	if k, ok := c.Directed(); ok && k >= 60 {
		retention(c, (k-60)%8)
		return
	}
	if k, ok := c.Directed(); ok {
		// groups of chosen sizes around the limit, replays cut at the edges
		n := []int{1, 2, 3, 5, 8}[k%5]
		m := newModel(c, n)
		sizes := []int{1, 2, 1023, 1024, 1025, 1026, 2048, 2500}
		for i := 0; i < 6; i++ {
			m.key()
			size := sizes[(k/5+i)%len(sizes)]
			for j := 1; j < size; j++ {
				m.inter()
			}
			l := len(m.want())
			for _, at := range []int{0, 1, l / 2, l - 1} {
				m.replay(at)
				m.replay(-1)
			}
			m.other()
		}
		c.Shape("directed", k)
		return
	}
	n := c.Range(0, 5)
	m := newModel(c, n)
	for i, steps := 0, c.Steps(1, 40); i < steps; i++ {
		switch {
		case c.P(1):
			for j := mon.Pick(c, 1022, 1023, 1024, 1030, 2100); j > 0; j-- {
				m.inter()
			}
		case c.P(25):
			m.replay(c.Range(-1, len(m.want())+1))
			m.replay(-1)
		case c.P(20):
			m.other()
		case c.P(25):
			m.key()
		default:
			m.inter()
		}
	}
	if l := len(m.want()); l < 60 { // every cut
		for at := 0; at < l; at++ {
			m.replay(at)
		}
	}
	m.replay(-1)
	sizes := []int{}
	for _, g := range m.groups {
		sizes = append(sizes, len(g))
	}
	c.Shape(n, sizes, m.ops)
	c.Sample("cache of %d groups, final group sizes %v", n, sizes)
}
