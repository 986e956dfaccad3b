package cross

import (
	"fmt"
	"unsafe"

	goflv "github.com/moggle-mog/goav/container/flv"
	"github.com/moggle-mog/goav/packet"

	"verif/kit"
	"verif/mon"
)

// ident is a packet as it was handed in; slices count by where they lie.
type ident struct {
	typ          int
	ts, base, id uint32
	hdr          packet.Header
	head         string
	data, media  [2]uintptr
	off          bool // media lies outside of data
}

func where(b []byte) [2]uintptr {
	return [2]uintptr{uintptr(unsafe.Pointer(unsafe.SliceData(b))), uintptr(len(b))}
}

func identify(p *packet.Packet) ident {
	i := ident{p.Type, p.TimeStamp, p.Baseline, p.StreamID, p.Header, header(p.Header), where(p.Data), where(p.Media), false}
	if len(p.Media) > 0 {
		i.off = i.media[0] < i.data[0] || i.media[0]+i.media[1] > i.data[0]+i.data[1]
	}
	return i
}

// altered names what differs, "" if nothing does.
func (a ident) altered(b ident) string {
	switch {
	case a.typ != b.typ || a.ts != b.ts || a.base != b.base || a.id != b.id:
		return fmt.Sprintf("type, times or stream of the packet: %d %d %d %d became %d %d %d %d", a.typ, a.ts, a.base, a.id, b.typ, b.ts, b.base, b.id)
	case a.hdr != b.hdr || a.head != b.head:
		return fmt.Sprintf("header of the packet: %s became %s", a.head, b.head)
	case a.data != b.data:
		return fmt.Sprintf("data of the packet: %d bytes became %d (or others)", a.data[1], b.data[1])
	case a.media != b.media:
		return fmt.Sprintf("media of the packet: %d bytes became %d (or others)", a.media[1], b.media[1])
	}
	return ""
}

// intact runs f and tells when it altered the packet.
func intact(p *packet.Packet, f func() string) func() string {
	return func() string {
		before := identify(p)
		out := f()
		if d := before.altered(identify(p)); d != "" {
			return changed + d
		}
		return out
	}
}

const asK10 = "K10 "

// saved is intact for the mixer calls that keep a sequence header: by finding
// K10 they point the media at the kept header.
func saved(p *packet.Packet, f func() string) func() string {
	return func() string {
		before := identify(p)
		out := f()
		now := identify(p)
		if now.media != before.media && cap(p.Media) > 0 && (len(p.Media) == 0 || now.off) {
			now.media = before.media
			if d := before.altered(now); d == "" {
				return asK10 + out
			}
		}
		if d := before.altered(identify(p)); d != "" {
			return changed + d
		}
		return out
	}
}

// fill fills in header and media and tells when anything else was altered.
func fill(p *packet.Packet) (error, string) {
	before := identify(p)
	err := goflv.NewDemuxer().Demux(p)
	now := identify(p)
	if now.off {
		return err, "media does not lie in the data of the packet"
	}
	now.hdr, now.head, now.media = before.hdr, before.head, before.media
	return err, before.altered(now)
}

// parcel is one packet a script hands in, again and again if shared.
type parcel struct {
	typ     int
	g       *kit.Guarded
	ts      uint32
	shared  *packet.Packet
	playing bool // demuxed before it is used
}

// parcel makes a packet of its own for every use, or one for all uses by all
// instances, as the packets of a GOP cache are.
func (s *script) parcel(c *mon.C, typ int, g *kit.Guarded, ts uint32, playing bool) *parcel {
	l := &parcel{typ: typ, g: g, ts: ts, playing: playing}
	if s.shares {
		l.shared = l.fresh()
	}
	return l
}

func (l *parcel) fresh() *packet.Packet {
	p := &packet.Packet{Type: l.typ, TimeStamp: l.ts, StreamID: l.ts ^ 77, Data: l.g.S}
	if l.playing {
		if err, d := fill(p); err != nil || d != "" {
			p.Header, p.Media = nil, nil
		}
	}
	return p
}

func (l *parcel) packet() *packet.Packet {
	if l.shared != nil {
		return l.shared
	}
	return l.fresh()
}
