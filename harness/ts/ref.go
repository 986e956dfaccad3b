// Package ts monitors the MPEG-TS muxer, mixer and program tables.
package ts

import (
	"encoding/binary"
	"fmt"
)

const (
	videoPID = 0x100
	audioPID = 0x101
	pmtPID   = 0x1001
	sdtPID   = 0x11
	mod33    = 1<<33 - 1
)

// tsPacket is one parsed transport packet.
type tsPacket struct {
	pid     int
	start   bool
	cc      int
	af      []byte // adaptation field after its length byte
	hasAF   bool
	payload []byte
}

// parsePacket is a strict reader of one transport packet.
func parsePacket(b []byte) (p tsPacket, err error) {
	if len(b) != 188 {
		return p, fmt.Errorf("packet of %d bytes", len(b))
	}
	if b[0] != 0x47 {
		return p, fmt.Errorf("sync byte %02x", b[0])
	}
	if b[1]&0x80 != 0 {
		return p, fmt.Errorf("transport error indicator set")
	}
	if b[3]&0xc0 != 0 {
		return p, fmt.Errorf("scrambling control %d", b[3]>>6)
	}
	p.pid = int(b[1]&0x1f)<<8 | int(b[2])
	p.start = b[1]&0x40 != 0
	p.cc = int(b[3] & 15)
	rest := b[4:]
	switch b[3] >> 4 & 3 {
	case 1:
	case 3:
		n := int(rest[0])
		if n > 182 {
			return p, fmt.Errorf("adaptation field length %d leaves no payload", n)
		}
		p.hasAF, p.af = true, rest[1:1+n]
		rest = rest[1+n:]
	default:
		return p, fmt.Errorf("adaptation field control %d", b[3]>>4&3)
	}
	p.payload = rest
	return p, nil
}

// adaptation reads an adaptation field: flags, PCR base and extension if present.
func (p *tsPacket) adaptation() (flags byte, pcr bool, base uint64, ext int, err error) {
	if !p.hasAF || len(p.af) == 0 {
		return
	}
	flags = p.af[0]
	rest := p.af[1:]
	if flags&0x0f != 0 {
		err = fmt.Errorf("adaptation field flags %02x", flags)
		return
	}
	if flags&0x10 != 0 {
		if len(rest) < 6 {
			err = fmt.Errorf("adaptation field of %d bytes claims a PCR", len(p.af))
			return
		}
		v := uint64(binary.BigEndian.Uint16(rest))<<32 | uint64(binary.BigEndian.Uint32(rest[2:]))
		pcr, base, ext = true, v>>15, int(v&0x1ff)
		if v>>9&0x3f != 0x3f {
			err = fmt.Errorf("reserved PCR bits %06b", v>>9&0x3f)
			return
		}
		rest = rest[6:]
	}
	for _, x := range rest {
		if x != 0xff {
			err = fmt.Errorf("stuffing byte %02x", x)
			return
		}
	}
	return
}

// pes is one parsed PES packet.
type pes struct {
	id             byte
	length         int
	pts, dts       uint64
	hasPTS, hasDTS bool
	payload        []byte
}

func stamp(b []byte, prefix byte) (uint64, error) {
	if b[0]>>4 != prefix {
		return 0, fmt.Errorf("time stamp prefix %04b, want %04b", b[0]>>4, prefix)
	}
	if b[0]&1 == 0 || b[2]&1 == 0 || b[4]&1 == 0 {
		return 0, fmt.Errorf("time stamp marker bits missing in %x", b[:5])
	}
	return uint64(b[0]>>1&7)<<30 | uint64(b[1])<<22 | uint64(b[2]>>1)<<15 | uint64(b[3])<<7 | uint64(b[4]>>1), nil
}

func parsePES(b []byte) (p pes, err error) {
	if len(b) < 9 {
		return p, fmt.Errorf("PES packet of %d bytes", len(b))
	}
	if b[0] != 0 || b[1] != 0 || b[2] != 1 {
		return p, fmt.Errorf("PES start code %x", b[:3])
	}
	p.id = b[3]
	p.length = int(binary.BigEndian.Uint16(b[4:]))
	if b[6]&0xf0 != 0x80 {
		return p, fmt.Errorf("PES flags %02x", b[6])
	}
	if b[7]&0x3f != 0 {
		return p, fmt.Errorf("PES optional fields %02x", b[7])
	}
	n := int(b[8])
	if len(b) < 9+n {
		return p, fmt.Errorf("PES header of %d bytes in a packet of %d", n, len(b))
	}
	h := b[9 : 9+n]
	switch b[7] >> 6 {
	case 2:
		if n < 5 {
			return p, fmt.Errorf("PES header data of %d bytes for a PTS", n)
		}
		p.hasPTS = true
		if p.pts, err = stamp(h, 2); err != nil {
			return
		}
		h = h[5:]
	case 3:
		if n < 10 {
			return p, fmt.Errorf("PES header data of %d bytes for PTS and DTS", n)
		}
		p.hasPTS, p.hasDTS = true, true
		if p.pts, err = stamp(h, 3); err != nil {
			return
		}
		if p.dts, err = stamp(h[5:], 1); err != nil {
			return
		}
		h = h[10:]
	case 1:
		return p, fmt.Errorf("forbidden PTS_DTS flags")
	}
	for _, x := range h {
		if x != 0xff {
			return p, fmt.Errorf("PES header stuffing %02x", x)
		}
	}
	p.payload = b[9+n:]
	return
}

// crc is the MPEG CRC-32, computed bit by bit.
func crc(b []byte) uint32 {
	r := uint32(0xffffffff)
	for _, x := range b {
		r ^= uint32(x) << 24
		for i := 0; i < 8; i++ {
			if r>>31 == 1 {
				r = r<<1 ^ 0x04c11db7
			} else {
				r <<= 1
			}
		}
	}
	return r
}

// section is one parsed long-form PSI section.
type section struct {
	table   byte
	ext     int
	body    []byte // between the section header and the CRC
	private byte
}

// parseTable reads one table packet.
func parseTable(b []byte, pid int) (s section, cc int, err error) {
	p, err := parsePacket(b)
	if err != nil {
		return s, 0, err
	}
	if p.pid != pid || !p.start || p.hasAF {
		return s, 0, fmt.Errorf("table packet on PID %#x, start %v, adaptation field %v", p.pid, p.start, p.hasAF)
	}
	d := p.payload
	if d[0] != 0 {
		return s, 0, fmt.Errorf("pointer field %d", d[0])
	}
	d = d[1:]
	if d[1]&0x80 == 0 {
		return s, 0, fmt.Errorf("section syntax indicator 0")
	}
	n := int(d[1]&0x0f)<<8 | int(d[2])
	if n < 9 || 3+n > len(d) {
		return s, 0, fmt.Errorf("section length %d", n)
	}
	for i, x := range d[3+n:] {
		if x != 0xff {
			return s, 0, fmt.Errorf("byte %d after the section is %02x", i, x)
		}
	}
	if got, want := binary.BigEndian.Uint32(d[n-1:]), crc(d[:n-1]); got != want {
		return s, 0, fmt.Errorf("CRC %08x, want %08x", got, want)
	}
	s.table, s.private = d[0], d[1]>>6&1
	s.ext = int(binary.BigEndian.Uint16(d[3:]))
	if d[5]&1 == 0 || d[6] != 0 || d[7] != 0 {
		return s, 0, fmt.Errorf("section version byte %02x, number %d of %d", d[5], d[6], d[7])
	}
	s.body = d[8 : n-1]
	return s, p.cc, nil
}

type stream struct{ typ, pid int }

type pmt struct {
	program, pcr int
	streams      []stream
}

func parsePMT(b []byte) (m pmt, cc int, err error) {
	s, cc, err := parseTable(b, pmtPID)
	if err != nil {
		return m, cc, err
	}
	if s.table != 2 || s.private != 0 || len(s.body) < 4 {
		return m, cc, fmt.Errorf("PMT table id %d, body %x", s.table, s.body)
	}
	m.program = s.ext
	m.pcr = int(binary.BigEndian.Uint16(s.body)) & 0x1fff
	d := s.body[2:]
	loop := func(what string) ([]byte, error) {
		n := int(binary.BigEndian.Uint16(d)) & 0xfff
		if n > len(d)-2 {
			return nil, fmt.Errorf("%s length %d", what, n)
		}
		if err := descriptors(d[2 : 2+n]); err != nil {
			return nil, err
		}
		return d[2+n:], nil
	}
	if d, err = loop("program info"); err != nil {
		return
	}
	for len(d) > 0 {
		if len(d) < 5 {
			return m, cc, fmt.Errorf("PMT stream entry %x", d)
		}
		m.streams = append(m.streams, stream{int(d[0]), int(binary.BigEndian.Uint16(d[1:])) & 0x1fff})
		d = d[3:]
		if d, err = loop("stream info"); err != nil {
			return
		}
	}
	return
}

func parsePAT(b []byte) (tsid int, programs map[int]int, cc int, err error) {
	s, cc, err := parseTable(b, 0)
	if err != nil {
		return 0, nil, cc, err
	}
	if s.table != 0 || s.private != 0 || len(s.body)%4 != 0 {
		return 0, nil, cc, fmt.Errorf("PAT table id %d, body %x", s.table, s.body)
	}
	programs = map[int]int{}
	for d := s.body; len(d) > 0; d = d[4:] {
		programs[int(binary.BigEndian.Uint16(d))] = int(binary.BigEndian.Uint16(d[2:])) & 0x1fff
	}
	return s.ext, programs, cc, nil
}

// parseSDT returns the descriptor loop of the only service.
func parseSDT(b []byte) (tsid, service int, desc []byte, cc int, err error) {
	s, cc, err := parseTable(b, sdtPID)
	if err != nil {
		return 0, 0, nil, cc, err
	}
	if s.table != 0x42 || len(s.body) < 8 {
		return 0, 0, nil, cc, fmt.Errorf("SDT table id %#x, body %x", s.table, s.body)
	}
	d := s.body[3:]
	n := int(binary.BigEndian.Uint16(d[3:])) & 0xfff
	if n != len(d)-5 {
		return 0, 0, nil, cc, fmt.Errorf("SDT descriptor loop length %d in %d bytes", n, len(d)-5)
	}
	return s.ext, int(binary.BigEndian.Uint16(d)), d[5:], cc, nil
}

// descriptors checks that a descriptor loop is made of whole descriptors.
func descriptors(d []byte) error {
	for len(d) > 0 {
		if len(d) < 2 || int(d[1]) > len(d)-2 {
			return fmt.Errorf("descriptor %x does not fit", d)
		}
		d = d[2+int(d[1]):]
	}
	return nil
}

// serviceDescriptor reads the service descriptor in front of d.
func serviceDescriptor(d []byte) (typ byte, provider, service string, rest []byte, err error) {
	if len(d) < 5 || d[0] != 0x48 || int(d[1]) > len(d)-2 {
		return 0, "", "", nil, fmt.Errorf("no service descriptor: %x", d)
	}
	b, rest := d[2:2+int(d[1])], d[2+int(d[1]):]
	typ = b[0]
	b = b[1:]
	take := func() (string, bool) {
		if len(b) < 1 || int(b[0]) > len(b)-1 {
			return "", false
		}
		s := string(b[1 : 1+int(b[0])])
		b = b[1+int(b[0]):]
		return s, true
	}
	p, ok1 := take()
	s, ok2 := take()
	if !ok1 || !ok2 || len(b) != 0 {
		return 0, "", "", nil, fmt.Errorf("service descriptor names do not fill it: %x", d)
	}
	return typ, p, s, rest, nil
}
