package ts

import (
	"bytes"

	"github.com/moggle-mog/goav/container/ts"
	"github.com/moggle-mog/goav/packet"

	"verif/media"
	"verif/mon"
)

// centered reduces a difference modulo 2^33 to the nearest representative.
func centered(d int64) int64 {
	d &= mod33
	if d >= 1<<32 {
		d -= 1 << 33
	}
	return d
}

// clockModel is the audio clock: the last stamp and whether it is known.
type clockModel struct {
	last   int64
	anchor bool
	inc    int64
}

func timeline(c *mon.C) {
	x := &mixed{observer: newObserver(c, checks{}), w: &bytes.Buffer{}}
	x.m = ts.NewMixer(x.w)
	var got pes
	x.times = func(f frame, p pes) { got = p }
	var ops []byte
	var a clockModel

	// audio before any configuration has no rate
	if c.P(10) {
		p := x.demux(packet.PktAudio, media.AACTag(1, c.Bytes(5)))
		if err := x.m.Update(p, c.Uint32(), 0); err == nil {
			c.Fail("Update(audio) before any configuration succeeded")
		}
	}
	x.saveAVC()
	config := func(index int) {
		s := media.ASC{Object: 2, Index: index, Channels: 2}
		v := s.Object<<11 | s.Index<<7 | s.Channels<<3
		s.Record = []byte{byte(v >> 8), byte(v)}
		if err := x.m.SaveAACHeader(x.demux(packet.PktAudio, media.AACTag(0, s.Record))); err != nil {
			c.Fail("SaveAACHeader: %v", err)
		}
		inc := int64(90000 * 1024 / media.Rates[index])
		if inc != a.inc {
			a.anchor = false
		}
		a.inc = inc
		x.asc = &s
		ops = append(ops, 'C', byte(index))
	}
	audio := func(t uint32) {
		b := c.Bytes(c.Range(1, 40))
		p := x.demux(packet.PktAudio, media.AACTag(1, b))
		if err := x.m.Update(p, t, c.Uint32()&uint32(-c.N(2))); err != nil {
			c.Fail("Update(audio, %d): %v", t, err)
		}
		x.mux(p, &frame{audio: true, payload: x.asc.ADTS(b)}, "audio")
		c.Note("audio at %d ms", t)
		want := 90 * int64(t)
		if !got.hasPTS || got.hasDTS {
			c.Fail("audio frame: PTS %v, DTS %v", got.hasPTS, got.hasDTS)
		}
		v := int64(got.pts)
		d := centered(v - want)
		if d > 900 || d < -900 {
			c.Fail("audio at %d ms (%d) stamped %d: off by %d ticks", t, uint64(want)&mod33, v, d)
		}
		if a.anchor {
			pred := a.last + a.inc
			gap := pred - want
			if gap <= 900 && gap >= -900 {
				if uint64(pred)&mod33 != got.pts {
					c.Fail("audio at %d ms (%d) continues a run at %d (one frame is %d): stamped %d", t, want, pred, a.inc, v)
				}
				c.Event("audio frames in a run")
				ops = append(ops, 'a')
			} else {
				if uint64(want)&mod33 != got.pts {
					c.Fail("audio at %d ms (%d) is off its run (%d): stamped %d", t, want, pred, v)
				}
				c.Event("audio restarts")
				ops = append(ops, 'r')
			}
			if gap == 900 || gap == -900 || gap == 901 || gap == -901 || gap > 800 && gap < 1000 || gap < -800 && gap > -1000 {
				c.Event("audio at the tolerance limit")
			}
		}
		a.last, a.anchor = want+d, true
	}
	video := func(t, off uint32) {
		key := c.P(40)
		longest := 400
		if x.avc.Len == 1 {
			longest = 255
		}
		body := media.Unit(x.avc.Len, media.NAL(c, 1, c.Range(200, longest)))
		p := x.demux(packet.PktVideo, media.VideoTag(key, 1, int32(off)<<8>>8, body))
		if err := x.m.Update(p, t, off); err != nil {
			c.Fail("Update(video, %d, %d): %v", t, off, err)
		}
		x.mux(p, &frame{key: key}, "video")
		c.Note("video at %d ms, offset %d", t, int32(off))
		dts := uint64(90*int64(t)) & mod33
		pts := uint64(90*(int64(t)+int64(int32(off)))) & mod33
		gd := got.pts
		if got.hasDTS {
			gd = got.dts
		}
		if !got.hasPTS || got.pts != pts || gd != dts {
			c.Fail("video at %d ms, offset %d: PTS %d DTS %d (present %v), want %d and %d", t, int32(off), got.pts, got.dts, got.hasDTS, pts, dts)
		}
		c.Event("video stamps compared")
		ops = append(ops, 'v')
	}

	index := c.N(13)
	if k, ok := c.Directed(); ok && k >= 26 {
		// one run of more than a day at a rate whose frames are whole
		// milliseconds, through every width the clocks could have; later
		// the frames come a little late, so that a restart would show
		index, n := 11, int64(800000) // 8 kHz
		if k == 27 {
			index, n = 3, 1150000 // 48 kHz
		}
		config(index)
		for i := int64(0); i < n; i++ {
			audio(uint32((i*1024*1000+500*int64(k&1))/int64(media.Rates[index]) + min(i/70000, 7)))
			if i&0xffff == 0 {
				video(uint32(i*128), uint32(i>>16)*40)
			}
			ops = ops[:0]
		}
		c.Event("days of steady audio")
		c.Shape("directed", k)
		return
	} else if ok { // long steady runs at every rate, near zero and near the wrap
		index = k % 13
		config(index)
		start := int64(0)
		if k >= 13 {
			start = 1<<32 - 30000
		}
		for i := int64(0); i < 3000; i++ {
			audio(uint32(start + i*1024*1000/int64(media.Rates[index])))
			if i%7 == 0 {
				video(uint32(start+i*10), uint32(i%5)*40)
			}
		}
		c.Shape("directed", k)
		return
	}
	config(index)
	t := int64(c.N(50))
	if c.P(50) {
		t = int64(c.Uint32())
	}
	for n := c.Steps(1, 60); n > 0; n-- {
		step := int64(1024*1000) / int64(media.Rates[index])
		switch c.N(16) {
		case 0: // jump
			t = int64(c.Uint32())
			if c.P(50) {
				t = mon.Pick[int64](c, 0, 1, 9, 10, 11, 1<<31, 1<<31-1, 1<<32-1, 95443717, 95443718)
			}
		case 1: // small disturbance around the tolerance
			t += int64(c.Range(-25, 25))
		case 2:
			if c.P(30) {
				index = c.N(13)
			}
			config(index)
		case 3, 4, 5, 6:
			off := uint32(int32(c.Range(-3000, 3000)))
			if c.P(30) {
				off = mon.Pick(c, uint32(0), 1, 1<<23-1, 1<<31-1, 1<<31, 1<<32-1, c.Uint32())
			}
			tv := uint32(t + int64(c.Range(-50, 50)))
			if c.P(10) {
				tv = c.Uint32()
			}
			video(tv, off)
			continue
		case 7: // bring the next frame to the edge of the tolerance
			if a.anchor {
				t = (a.last+a.inc+int64(mon.Pick(c, -990, -901, -900, -899, -810, 810, 899, 900, 901, 990)))/90 + int64(c.N(2))
			}
		default:
			t += step + int64(c.Range(-2, 3))/2
		}
		t &= 1<<32 - 1
		audio(uint32(t))
	}
	c.Shape(ops)
	c.Sample("%q", ops)
}
