// Package media generates H.264, AAC and MP3 payloads and holds independent
// reference conversions for them.
package media

import (
	"encoding/binary"
	"math"

	"github.com/moggle-mog/goav/packet"

	"verif/mon"
)

// Hdr is a packet header with settable answers, usable for audio and video.
type Hdr struct {
	Key, Inter, Seq, EOS, Avc bool
	Codec                     uint8
	CT                        int32
	Format, AAC               uint8
	IsAAC, IsMP3, AACSeq      bool
}

// The header interfaces of package packet.
func (h *Hdr) SoundFormat() uint8     { return h.Format }
func (h *Hdr) AACType() uint8         { return h.AAC }
func (h *Hdr) IsSoundAAC() bool       { return h.IsAAC }
func (h *Hdr) IsSoundMP3() bool       { return h.IsMP3 }
func (h *Hdr) IsAACSeqHdr() bool      { return h.AACSeq }
func (h *Hdr) IsKeyFrame() bool       { return h.Key }
func (h *Hdr) IsInterFrame() bool     { return h.Inter }
func (h *Hdr) IsSeqHdr() bool         { return h.Seq }
func (h *Hdr) IsEndOfSeq() bool       { return h.EOS }
func (h *Hdr) IsCodecAvc() bool       { return h.Avc }
func (h *Hdr) CodecID() uint8         { return h.Codec }
func (h *Hdr) CompositionTime() int32 { return h.CT }

// VideoTag is the body of an FLV AVC video tag.
func VideoTag(key bool, pktType byte, ct int32, media []byte) []byte {
	b0 := byte(0x27)
	if key {
		b0 = 0x17
	}
	return append([]byte{b0, pktType, byte(ct >> 16), byte(ct >> 8), byte(ct)}, media...)
}

// AACTag is the body of an FLV AAC tag.
func AACTag(typ byte, media []byte) []byte { return append([]byte{0xaf, typ}, media...) }

// MP3Tag is the body of an FLV MP3 tag.
func MP3Tag(media []byte) []byte { return append([]byte{0x2f}, media...) }

// NAL generates a NAL unit of the given type with n bytes (at least one).
func NAL(c *mon.C, typ byte, n int) []byte {
	if n < 1 {
		n = 1
	}
	b := c.Bytes(n)
	if c.P(15) { // start codes and length-like bytes inside the unit
		for k := c.Range(1, 3); k > 0; k-- {
			copy(b[c.N(n):], mon.Pick(c, []byte{0, 0, 0, 1}, []byte{0, 0, 1}, []byte{0, 0, 0, 1, 9, 0xf0}, []byte{0, 0, 0, 5, 0x65}))
		}
	}
	b[0] = byte(c.N(8))<<5 | typ
	return b
}

func nalSize(c *mon.C) int {
	switch c.N(20) {
	case 0:
		return c.Range(1, 3)
	case 1:
		return mon.Pick(c, 255, 256, 257, 65532+c.N(4), 65536, 65537)
	case 2:
		return c.Range(1, 3000)
	}
	return c.Range(1, 60)
}

// Set generates a parameter set NAL unit.
func Set(c *mon.C, typ byte) []byte {
	n := c.Range(1, 40)
	if c.P(4) {
		n = mon.Pick(c, 255, 256, 1023, 2047, 2048, 2049, 65532+c.N(4))
	}
	b := NAL(c, typ, n)
	b[0] = 0x60 | typ
	return b
}

// Start is the four-byte start code.
var Start = []byte{0, 0, 0, 1}

// Config is an AVC configuration: its record, its Annex-B parameter sets and
// the size of the length field before each NAL unit.
type Config struct {
	Record, Sets []byte
	Len          int
}

// NewConfig generates a valid AVC decoder configuration record for units with
// four-byte lengths, with one or more SPS and PPS.
func NewConfig(c *mon.C) Config { return NewConfigLen(c, 4) }

// NewConfigLen is NewConfig with the given size of NAL unit lengths.
func NewConfigLen(c *mon.C, size int) Config {
	k, _ := newConfig(c, size)
	return k
}

// newConfig also returns the length of the mandatory part of the record.
func newConfig(c *mon.C, size int) (Config, int) {
	k := Config{Len: size}
	rec := []byte{1, byte(c.N(256)), byte(c.N(256)), byte(c.N(256)), 0xfc | byte(size-1)}
	for t := byte(7); t <= 8; t++ {
		n := 1
		if c.P(15) {
			n = mon.Pick(c, 2, 2, 3, c.Range(2, 31), 31)
			if t == 8 {
				n = mon.Pick(c, n, n, n, 32, c.Range(32, 255), 255)
			}
		}
		if t == 7 {
			rec = append(rec, 0xe0|byte(n))
		} else {
			rec = append(rec, byte(n))
		}
		for ; n > 0; n-- {
			set := Set(c, t)
			rec = binary.BigEndian.AppendUint16(rec, uint16(len(set)))
			rec = append(rec, set...)
			k.Sets = append(append(k.Sets, Start...), set...)
		}
	}
	end := len(rec)
	if c.P(20) { // high profile extension
		rec = append(rec, 0xfd, 0xf8, 0xf8, 0)
	}
	k.Record = rec
	return k, end
}

// ReadConfig is the reference reader of configuration records.
func ReadConfig(rec []byte) (k Config, ok bool) {
	if len(rec) < 6 {
		return
	}
	k = Config{Record: rec, Len: int(rec[4]&3) + 1}
	at := 5
	for t := 0; t < 2; t++ {
		if at >= len(rec) {
			return
		}
		n := int(rec[at])
		if t == 0 {
			n &= 31
		}
		at++
		if n == 0 {
			return
		}
		for ; n > 0; n-- {
			if at+2 > len(rec) {
				return
			}
			l := int(binary.BigEndian.Uint16(rec[at:]))
			if at += 2; l == 0 || l > len(rec)-at {
				return
			}
			k.Sets = append(append(k.Sets, Start...), rec[at:at+l]...)
			at += l
		}
	}
	return k, true
}

// BadConfig generates a malformed configuration record.
func BadConfig(c *mon.C) []byte {
	for {
		k, end := newConfig(c, 4)
		rec := k.Record
		spsLen := int(binary.BigEndian.Uint16(rec[6:]))
		switch c.N(7) {
		case 0: // cut off anywhere inside the mandatory part
			rec = rec[:c.Range(1, end-1)]
		case 1: // cut off one byte short
			rec = rec[:end-1]
		case 2: // SPS length zero or too long
			binary.BigEndian.PutUint16(rec[6:], uint16(mon.Pick(c, 0, len(rec)-8+1+c.N(50), 0xffff)))
		case 3: // first length after the first SPS zero
			binary.BigEndian.PutUint16(rec[8+spsLen+1:], 0)
		case 4: // the same too long
			binary.BigEndian.PutUint16(rec[8+spsLen+1:], uint16(c.Range(min(len(rec)-8-spsLen-3+1, 0xffff), 0xffff)))
		case 5: // another number of SPS
			rec[5] = 0xe0 | byte(c.N(32))
		default: // another number of PPS if there is one SPS
			rec[8+spsLen] = byte(c.N(256))
		}
		if _, ok := ReadConfig(rec); !ok {
			return rec
		}
	}
}

// Bad kinds of access units.
const (
	Good = iota
	Truncated
	TooLong
	ZeroLength
	BadType
	Short
	Empty
	nBad
)

// AUOptions steer the access unit generator.
type AUOptions struct {
	IDR   int // percent of picture NAL units that are IDR
	Sets  int // percent of NAL units that are parameter sets
	Bad   int // percent of malformed access units
	Small bool
	Len   int // bytes of each length, 0 for 4
}

// AU generates a length-prefixed access unit and says what is wrong with it.
func AU(c *mon.C, o AUOptions) (au []byte, bad int, kinds []byte) {
	if o.Len == 0 {
		o.Len = 4
	}
	longest := math.MaxInt
	if o.Len < 4 {
		longest = 1<<(8*o.Len) - 1
	}
	n := c.Range(1, 6)
	if c.P(3) {
		n = c.Range(7, 40)
	}
	if c.P(o.Bad) {
		bad = c.Range(1, nBad-1)
	}
	switch bad {
	case Short:
		return c.Bytes(c.Range(1, max(1, o.Len-1))), bad, nil
	case Empty:
		return []byte{}, bad, nil
	}
	badAt := c.N(n)
	idr := c.P(o.IDR)
	for i := 0; i < n; i++ {
		typ := byte(1)
		if idr {
			typ = 5
		}
		switch {
		case c.P(o.Sets):
			typ = byte(7 + c.N(2))
		case c.P(15):
			typ = 6
		case c.P(15):
			typ = 9
		case c.P(8): // mixed access unit
			typ = 6 - typ
		}
		size := nalSize(c)
		if o.Small && size > 500 {
			size = c.Range(1, 20)
		}
		if size > longest {
			size = mon.Pick(c, longest, longest-1, c.Range(1, longest))
		}
		if i == 0 && size == 1 && o.Len == 4 {
			size = 2 // a first length of 1 would read as a start code
		}
		nal := NAL(c, typ, size)
		if typ >= 7 && typ <= 8 {
			for nal = Set(c, typ); len(nal) > longest; {
				nal = Set(c, typ)
			}
			if i == 0 && len(nal) == 1 {
				nal = append(nal, 0)
			}
		}
		claim := int64(len(nal))
		if bad != Good && i == badAt {
			switch bad {
			case Truncated:
				nal = nal[:c.N(len(nal))]
			case TooLong:
				claim = mon.Pick(c, int64(len(nal)+1), int64(len(nal)+4), 1<<31-1, 1<<31, 1<<32-1, 1<<24)
				if claim < int64(len(nal)) {
					claim = int64(len(nal) + 1)
				}
				if claim > int64(longest) { // the unit is cut instead
					claim = int64(len(nal))
					nal = nal[:c.N(len(nal))]
				}
			case ZeroLength:
				claim = 0
			case BadType:
				nal[0] = nal[0]&0xe0 | mon.Pick(c, byte(0), 2, 3, 4, 10, 11, 12, 13, 16, 19, 20, 24, 28, 31)
			}
		}
		for b := o.Len - 1; b >= 0; b-- {
			au = append(au, byte(claim>>(8*b)))
		}
		au = append(au, nal...)
		kinds = append(kinds, typ)
		if bad == Truncated && i == badAt || bad == TooLong && i == badAt {
			if c.P(30) { // cut inside the length field instead
				au = au[:len(au)-len(nal)-c.Range(1, max(1, o.Len-1))]
				if len(au) == 0 {
					au = []byte{0}
				}
			}
			break
		}
	}
	return
}

// Unit writes the NAL unit behind its length, of size bytes (0 for 4).
func Unit(size int, nal []byte) []byte {
	if size == 0 {
		size = 4
	}
	var out []byte
	for b := size - 1; b >= 0; b-- {
		out = append(out, byte(len(nal)>>(8*b)))
	}
	return append(out, nal...)
}

// AVC is the reference converter.
type AVC struct {
	Sets []byte // parameter sets in force
	Len  int    // bytes of each length, 0 for 4
}

// Set puts a configuration in force.
func (m *AVC) Set(k Config) { m.Sets, m.Len = k.Sets, k.Len }

// Convert is the reference AVCC to Annex-B conversion; when ok is false the
// output may be any prefix of out.
func (m *AVC) Convert(au []byte) (out []byte, ok bool) {
	if len(au) == 0 {
		return nil, false
	}
	if len(au) >= 4 && binary.BigEndian.Uint32(au) == 1 {
		return append([]byte(nil), au...), true
	}
	size := m.Len
	if size == 0 {
		size = 4
	}
	var nals [][]byte
	ok = true
	for p := au; len(p) > 0; {
		if len(p) < size {
			ok = false
			break
		}
		n := uint64(0)
		for _, b := range p[:size] {
			n = n<<8 | uint64(b)
		}
		if p = p[size:]; n == 0 || n > uint64(len(p)) {
			ok = false
			break
		}
		nals = append(nals, p[:n])
		p = p[n:]
	}
	out = append(out, 0, 0, 0, 1, 9, 0xf0)
	var inband []byte
	seenIDR := false
	for _, n := range nals {
		t := n[0] & 31
		if t == 9 {
			continue
		}
		if t == 7 || t == 8 {
			inband = append(append(inband, Start...), n...)
			continue
		}
		if t != 1 && t != 5 && t != 6 {
			return out, false
		}
		if t == 5 && !seenIDR {
			seenIDR = true
			if len(inband) > 0 {
				out = append(out, inband...)
			} else {
				out = append(out, m.Sets...)
			}
		}
		out = append(append(out, Start...), n...)
	}
	return out, ok
}

// ASC is an AAC configuration.
type ASC struct {
	Object, Index, Channels int
	Record                  []byte
}

// Rates are the MPEG-4 sampling frequencies by index.
var Rates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

// NewASC generates a valid AAC configuration.
func NewASC(c *mon.C) ASC {
	a := ASC{Object: c.Range(1, 4), Index: c.N(13), Channels: c.N(8)}
	v := a.Object<<11 | a.Index<<7 | a.Channels<<3 | c.N(8)
	a.Record = []byte{byte(v >> 8), byte(v)}
	if c.P(30) {
		a.Record = append(a.Record, c.Bytes(c.Range(1, 5))...)
	}
	return a
}

// BadASC generates a configuration that must be refused.
func BadASC(c *mon.C) []byte {
	switch c.N(3) {
	case 0:
		return []byte{}
	case 1:
		return c.Bytes(1)
	}
	v := c.Range(1, 4)<<11 | 15<<7 | c.N(128)
	return append([]byte{byte(v >> 8), byte(v)}, c.Bytes(c.N(6))...)
}

// MaxADTS is the longest data an ADTS frame carries.
const MaxADTS = 0x1fff - 7

// ADTS is the reference framing.
func (a ASC) ADTS(data []byte) []byte {
	var bits uint64 // 56 header bits
	put := func(v, n int) { bits = bits<<n | uint64(v)&(1<<n-1) }
	put(0xfff, 12)
	put(0, 1) // MPEG-4
	put(0, 2) // layer
	put(1, 1) // no CRC
	put(a.Object-1, 2)
	put(a.Index, 4)
	put(0, 1)
	put(a.Channels, 3)
	put(0, 4)
	put(len(data)+7, 13)
	put(0x7ff, 11)
	put(0, 2)
	h := binary.BigEndian.AppendUint64(nil, bits<<8)[:7]
	return append(h, data...)
}

// MP3Rates are the MPEG-1 sampling frequencies by index.
var MP3Rates = []int{44100, 48000, 32000}

// MP3 generates a frame beginning with an MPEG-1 Layer III header.
func MP3(c *mon.C, index int) []byte {
	b := []byte{0xff, byte(0xfa | c.N(2)), byte(c.Range(1, 14)<<4 | index<<2 | c.N(4)), byte(c.N(256))}
	return append(b, c.Bytes(c.Size(400))...)
}

// Video returns a demuxable video packet.
func Video(data []byte) *packet.Packet { return &packet.Packet{Type: packet.PktVideo, Data: data} }

// Audio returns a demuxable audio packet.
func Audio(data []byte) *packet.Packet { return &packet.Packet{Type: packet.PktAudio, Data: data} }
