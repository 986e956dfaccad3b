package sips

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"

	"github.com/moggle-mog/goav/sips"

	"verif/kit"
	"verif/mon"
)

func rep(s string, n int) []byte { return []byte(strings.Repeat(s, n)) }

func cat(ps ...[]byte) []byte { return bytes.Join(ps, nil) }

const reqLine = "INVITE sip:a@b SIP/2.0\r\n"

// hostile are the directed inputs; each is parsed as a message and as every
// kind of value.
var hostile = []struct {
	name string
	make func() []byte
}{
	{"empty", func() []byte { return nil }},
	{"one new line", func() []byte { return []byte("\n") }},
	{"huge length", func() []byte { return []byte(reqLine + "Content-Length: 2147483647\r\n\r\nabc") }},
	{"larger length", func() []byte { return []byte(reqLine + "Content-Length: 9223372036854775807\r\n\r\nabc") }},
	{"length of a gigabyte, compact", func() []byte { return []byte(reqLine + "l: 1073741824\r\n\r\n") }},
	{"negative length", func() []byte { return []byte(reqLine + "Content-Length: -1\r\n\r\nabc") }},
	{"most negative length", func() []byte { return []byte(reqLine + "Content-Length: -9223372036854775808\r\n\r\nabc") }},
	{"folds", func() []byte {
		return cat([]byte(reqLine+"Subject: x\r\n"), rep(" y\r\n", 300000), []byte("Content-Length: 0\r\n\r\n"))
	}},
	{"empty folds", func() []byte {
		return cat([]byte(reqLine+"Subject: x\r\n"), rep(" \r\n", 300000), []byte("Content-Length: 0\r\n\r\n"))
	}},
	{"fold before any header", func() []byte { return []byte(reqLine + " x\r\nContent-Length: 0\r\n\r\n") }},
	{"fold first", func() []byte { return []byte(" x\r\n y\r\n\r\n") }},
	{"many headers", func() []byte { return cat([]byte(reqLine), rep("a:b\r\n", 300000), []byte("l:0\r\n\r\n")) }},
	{"many names", func() []byte {
		var b bytes.Buffer
		b.WriteString(reqLine)
		for i := 0; i < 100000; i++ {
			fmt.Fprintf(&b, "x%d:\r\n", i)
		}
		b.WriteString("l:0\r\n\r\n")
		return b.Bytes()
	}},
	{"no colon", func() []byte { return cat([]byte(reqLine), rep("a\r\n", 100000), []byte("l:0\r\n\r\n")) }},
	{"long line", func() []byte { return cat([]byte(reqLine+"Subject: "), rep("x", 1000000), []byte("\r\nl:0\r\n\r\n")) }},
	{"carriage returns", func() []byte { return rep("\r", 100000) }},
	{"colons", func() []byte { return cat([]byte(reqLine), rep(":\r\n", 100000), []byte("l:0\r\n\r\n")) }},
	{"semicolons", func() []byte { return rep(";", 1000000) }},
	{"commas", func() []byte { return rep(",a", 500000) }},
	{"equals", func() []byte { return rep("=", 1000000) }},
	{"empty pair", func() []byte { return []byte("a@b;=") }},
	{"value of one quote", func() []byte { return []byte(`sip:a@b;x="`) }},
	{"value of two quotes", func() []byte { return []byte(`sip:a@b;x=""`) }},
	{"empty value", func() []byte { return []byte(`sip:a@b;x=`) }},
	{"quotes", func() []byte { return rep(`"`, 1000000) }},
	{"backslashes", func() []byte { return cat([]byte(`"`), rep(`\`, 1000001)) }},
	{"open quote", func() []byte { return cat([]byte(`"`), rep("a", 1000000)) }},
	{"open angles", func() []byte { return rep("<", 1000000) }},
	{"close angles", func() []byte { return rep(">", 1000000) }},
	{"angles", func() []byte { return rep("<>", 500000) }},
	{"schemes", func() []byte { return rep("sip:", 250000) }},
	{"secure schemes", func() []byte { return rep("sips:", 200000) }},
	{"at signs", func() []byte { return cat([]byte("sip:"), rep("@", 1000000)) }},
	{"colons in a host", func() []byte { return cat([]byte("sip:a@"), rep(":", 1000000)) }},
	{"via prefixes", func() []byte { return rep("SIP/2.0/", 120000) }},
	{"via cut", func() []byte { return []byte("SIP/2.0/") }},
	{"via cut in the transport", func() []byte { return []byte("SIP/2.0/SC") }},
	{"spaces", func() []byte { return rep(" ", 1000000) }},
	{"tabs", func() []byte { return rep("\t", 1000000) }},
	{"digest", func() []byte { return []byte("digest") }},
	{"digest and a space", func() []byte { return []byte("Digest ") }},
	{"digest and a quote", func() []byte { return []byte(`Digest "`) }},
	{"digests", func() []byte { return cat([]byte("Digest "), rep(`a="b",`, 150000)) }},
	{"different digests", func() []byte {
		var b bytes.Buffer
		b.WriteString("Digest ")
		for i := 0; i < 100000; i++ {
			fmt.Fprintf(&b, "k%d=\"v\", ", i)
		}
		return b.Bytes()
	}},
	{"parameters", func() []byte {
		var b bytes.Buffer
		b.WriteString("<sip:a@b>")
		for i := 0; i < 100000; i++ {
			fmt.Fprintf(&b, ";k%d=v", i)
		}
		return b.Bytes()
	}},
	{"high bytes", func() []byte { return rep("\xff\xfe", 100000) }},
	{"zeros", func() []byte { return rep("\x00", 100000) }},
	{"start lines", func() []byte { return rep(reqLine, 20000) }},
	{"spaces in the start line", func() []byte { return []byte("INVITE  SIP/2.0\r\nl:0\r\n\r\n") }},
	{"status overflow", func() []byte { return []byte("SIP/2.0 99999999999999999999 OK\r\nl:0\r\n\r\n") }},
	{"negative status", func() []byte { return []byte("SIP/2.0 -5 OK\r\nl:0\r\n\r\n") }},
}

const maxAlloc = 64 << 10
const perByte = 1000

func limit(n int) uint64 { return maxAlloc + perByte*uint64(n) }

// mutate returns an input close to a valid message.
func mutate(c *mon.C) ([]byte, string) {
	m := newMessage(c)
	m.body = newBody(c)
	if len(m.body) > 3000 && c.P(70) {
		m.body = m.body[:100]
	}
	cl := fmt.Sprint(len(m.body))
	kind := "valid"
	switch c.N(12) {
	case 0:
		cl = mon.Pick(c, "2147483647", "4294967296", "1099511627776", "9223372036854775807", "100000000")
		kind = "huge"
		c.Event("huge lengths declared")
	case 1:
		cl = mon.Pick(c, "-1", "-2147483648", "0", "+3", "-9223372036854775808")
		kind = "odd length"
	case 2:
		cl = "-"
	}
	m.build(c, cl, c.P(5))
	p := append([]byte(nil), m.wire...)
	switch c.N(9) {
	case 0:
		return p, kind
	case 1: // cut
		return p[:c.N(len(p)+1)], kind + " cut"
	case 2: // flipped
		for n := c.Range(1, 4); n > 0 && len(p) > 0; n-- {
			p[c.N(len(p))] ^= 1 << c.N(8)
		}
		return p, kind + " flipped"
	case 3: // special bytes
		for n := c.Range(1, 6); n > 0 && len(p) > 0; n-- {
			p[c.N(len(p))] = mon.Pick[byte](c, '\r', '\n', ' ', '\t', ':', ';', '"', '\\', '<', '>', '=', ',', 0, 0xff, '@')
		}
		return p, kind + " specials"
	case 4: // doubled, dropped or moved lines
		l := bytes.SplitAfter(p, []byte("\n"))
		for n := c.Range(1, 3); n > 0; n-- {
			i, j := c.N(len(l)), c.N(len(l))
			switch c.N(3) {
			case 0:
				l[i] = l[j]
			case 1:
				l[i] = nil
			default:
				l[i], l[j] = l[j], l[i]
			}
		}
		return bytes.Join(l, nil), kind + " lines"
	case 5: // inserted
		i := c.N(len(p) + 1)
		ins := []byte(mon.Pick(c, "\r\n", "\n", "\r", " ", "\r\n ", "\n\t", "\r\n\r\n", ":", ";", `"`, "sip:", "SIP/2.0/", "<", ">", "l:5\r\n", ";x=", "Digest "))
		return cat(p[:i], ins, p[i:]), kind + " inserted"
	case 6:
		return c.Bytes(c.Size(2000)), "random"
	case 7:
		return []byte(text(c, 0, c.Size(600), "\r\n \t:;,=\"\\<>@SIPsip/20lf")), "alphabet"
	}
	return cat([]byte(mon.Pick(c, reqLine, "SIP/2.0 200 OK\r\n", "SIP/2.0 200 OK\n")), []byte(text(c, 0, c.Size(400), "\r\n \t:;,=\"\\<>lftmv05"))), "alphabet headers"
}

type outcome struct {
	err      error
	sip      *sips.SIP
	consumed int
}

func run(r io.Reader, taken func() int) outcome {
	br := bufio.NewReader(r)
	s := sips.NewSIP()
	err := s.Parse(br)
	return outcome{err, s, taken() - br.Buffered()}
}

func safe(c *mon.C) {
	var p []byte
	var kind string
	if k, ok := c.Directed(); ok {
		p, kind = hostile[k].make(), hostile[k].name
	} else {
		p, kind = mutate(c)
	}
	c.Note("%s, %d bytes: %q", kind, len(p), head(p))
	g := kit.Guard(p)
	r := kit.NewReader(g.S)
	var o outcome
	used := kit.Alloc(func() {
		c.Try("Parse", func() { o = run(r, func() int { return r.Off }) })
	})
	if used > limit(len(p)) {
		c.Fail("parsing %d bytes allocated %d, more than %d", len(p), used, limit(len(p)))
	}
	if d := g.Check(); d != "" {
		c.Fail("the input was modified: %s", d)
	}
	if o.err == nil {
		c.Event("messages accepted")
	} else {
		c.Event("messages refused")
	}
	// in other pieces
	big := len(p) > 100000
	n := 2
	if big {
		n = 1
	}
	for i := 0; i < n; i++ {
		r2, how := kit.Chunked(c, g.S)
		var o2 outcome
		c.Try("Parse", func() { o2 = run(r2, func() int { return r2.Off }) })
		if d := differ(o, o2); d != "" {
			c.Fail("delivery %s instead of the whole at once: %s", how, d)
		}
		c.Event("deliveries compared")
	}
	// ParseBytes is the same
	s := sips.NewSIP()
	var err error
	c.Try("ParseBytes", func() { err = s.ParseBytes(g.S) })
	if d := differ(o, outcome{err, s, o.consumed}); d != "" {
		c.Fail("ParseBytes instead of Parse: %s", d)
	}
	// faults before the end of what was consumed
	if o.err == nil && o.consumed > 0 {
		faults := min(o.consumed, mon.Pick(c, 2, 2, 12))
		if big {
			faults = 1
		}
		for i := 0; i < faults; i++ {
			at := c.N(o.consumed)
			switch i {
			case 0:
				at = o.consumed - 1
			case 1:
				at = max(0, bytes.Index(p, []byte("\n\r\n"))) % o.consumed
			}
			r3, how := kit.Chunked(c, g.S)
			r3.FailAt, r3.FailWith = at, c.P(50)
			if c.P(20) {
				r3.Err = io.ErrUnexpectedEOF
			}
			var o3 outcome
			c.Try("Parse", func() { o3 = run(r3, func() int { return r3.Off }) })
			if !r3.Faulted {
				continue
			}
			if o3.err == nil {
				c.Fail("the reader failed at byte %d of the %d that belong to the message (delivery %s) and Parse returned no error", at, o.consumed, how)
			}
			c.Event("faults reported")
		}
	}
	// the end of input is part of the message: a fault there is no end
	if o.err == nil && ended(o) && o.consumed == len(p) {
		r4 := kit.NewReader(g.S)
		r4.FailAt = len(p)
		var o4 outcome
		c.Try("Parse", func() { o4 = run(r4, func() int { return r4.Off }) })
		if r4.Faulted && o4.err == nil {
			c.Fail("the reader failed where the input ended early and Parse returned no error")
		}
		c.Event("faults at the end")
	}
	if d := g.Check(); d != "" {
		c.Fail("the input was modified: %s", d)
	}
	for i := 0; i < 3; i++ {
		t := string(p[:min(len(p), c.N(40))])
		if c.P(10) {
			t = string(p)
		}
		bound := func() int {
			return mon.Pick(c, c.Range(-3, len(t)+3), c.Range(0, len(t)), c.Range(0, len(t)), math.MinInt, math.MaxInt, math.MaxInt32, -1<<31)
		}
		from, to := bound(), bound()
		want := ""
		if a, b := max(from, 0), min(max(to, 0), len(t)); a <= b {
			want = t[a:b]
		}
		var got string
		c.Try("Substring", func() { got = sips.Substring(t, from, to) })
		if got != want {
			c.Fail("Substring(%q, %d, %d) is %q, want %q", t, from, to, got, want)
		}
		c.Event("substrings")
	}
	// as values
	strs := []string{string(p)}
	if o.sip != nil && !big {
		for _, v := range o.sip.Headers {
			strs = append(strs, v...)
			if len(strs) > 8 {
				break
			}
		}
	}
	for _, t := range strs {
		for _, f := range parsers {
			var out int
			used := kit.Alloc(func() { c.Try(f.name, func() { out = f.parse(t) }) })
			if used > limit(len(t)) {
				c.Fail("%s of %d bytes allocated %d, more than %d", f.name, len(t), used, limit(len(t)))
			}
			if out > len(t)*4+64 {
				c.Fail("%s of %d bytes returns %d bytes", f.name, len(t), out)
			}
			c.Event("strings parsed")
		}
	}
	c.Shape(kind, len(p)/8, o.err != nil, o.consumed/8)
	c.Sample("%s: %q", kind, head(p)[:min(len(p), 200)])
}

// ended tells whether the parser ran into the end of the input.
func ended(o outcome) bool {
	n, err := o.sip.Headers.GetContentLength()
	return err == nil && n > len(o.sip.Payload())
}

func differ(a, b outcome) string {
	if (a.err == nil) != (b.err == nil) {
		return fmt.Sprintf("error %v, want %v", b.err, a.err)
	}
	if a.err != nil {
		return ""
	}
	if a.consumed != b.consumed {
		return fmt.Sprintf("%d bytes consumed, want %d", b.consumed, a.consumed)
	}
	if !bytes.Equal(a.sip.Payload(), b.sip.Payload()) {
		return "payload: " + mon.Diff(b.sip.Payload(), a.sip.Payload())
	}
	x, y := *a.sip, *b.sip
	for _, f := range [][2]interface{}{{x.Headers, y.Headers}, {x.From, y.From}, {x.To, y.To}, {x.Contact, y.Contact}, {x.Cseq, y.Cseq}, {x.Via, y.Via},
		{x.Request, y.Request}, {x.Method, y.Method}, {x.Version, y.Version}, {x.IsResponse, y.IsResponse}, {x.ResponseCode, y.ResponseCode}, {x.ResponseStatus, y.ResponseStatus}} {
		if !reflect.DeepEqual(f[0], f[1]) {
			return fmt.Sprintf("%.300q, want %.300q", fmt.Sprint(f[1]), fmt.Sprint(f[0]))
		}
	}
	return ""
}

func size(a sips.Args) int {
	n := 0
	for k, v := range a {
		n += len(k) + len(v)
	}
	return n
}

var parsers = []struct {
	name  string
	parse func(string) int
}{
	{"NewSIPRequest", func(s string) int {
		r := sips.NewSIPRequest(s)
		return len(r.User) + len(r.Host) + len(r.Port) + size(r.Args)
	}},
	{"NewSIPUser", func(s string) int {
		r := sips.NewSIPUser(s)
		return len(r.Name) + len(r.User) + len(r.Host) + len(r.Port) + size(r.Args)
	}},
	{"NewSIPVia", func(s string) int { r := sips.NewSIPVia(s); return len(r.Host) + len(r.Port) + size(r.Args) }},
	{"NewSIPCseq", func(s string) int { r := sips.NewSIPCseq(s); return len(r.ID) + len(r.Method) }},
	{"NewSIPAuth", func(s string) int { return size(sips.NewSIPAuth(s).Args) }},
	{"ParseArgs", func(s string) int { return size(sips.ParseArgs(s)) }},
	{"ParseArgsPairs", func(s string) int { return size(sips.ParseArgsPairs(s)) }},
	{"ParseList", func(s string) int {
		n := 0
		for _, v := range sips.NewArgs().ParseList(s) {
			n += len(v)
		}
		return n
	}},
	{"GetSIPMethod", func(s string) int { sips.GetSIPMethod(s); return 0 }},
	{"GetSIPVersion", func(s string) int { sips.GetSIPVersion(s); return 0 }},
	{"ParseFirstLine", func(s string) int { sips.NewSIP().ParseFirstLine([]byte(s)); return 0 }},
	{"ParseHeader", func(s string) int { sips.NewSIP().ParseHeader([]byte(s)); return 0 }},
}
