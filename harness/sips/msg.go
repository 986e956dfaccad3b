package sips

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/moggle-mog/goav/sips"

	"verif/kit"
	"verif/mon"
)

// Props returns the SIP monitors.
func Props() []*mon.Prop {
	return []*mon.Prop{
		{ID: "S01", Level: "exploration", Quick: 200000, Thorough: 12000000, Run: parse,
			Rule:   "requests and responses written from a reference form (letter case, compact names, white space, folds, CRLF or LF, field order) and malformed start lines; distinct by kind, names, folds and sizes",
			Assume: []string{"contact lists and '*' contacts are not generated"},
			Need:   []string{"requests", "responses", "folded values", "compact names found", "headers in both forms", "repeated headers", "start lines refused", "LF messages", "values beyond the read buffer", "messages parsed line by line", "empty lines before the start line"}},
		{ID: "S02", Level: "exploration", Quick: 80000, Thorough: 5000000, Directed: 1, Run: framing,
			Rule:   "streams of one to six messages with hostile bodies, delivered in pieces, cut at any point of the last body; missing and non-numeric lengths; distinct by message count, sizes, line ends and delivery",
			Assume: []string{"the payload may start with the blank separator line (finding K5)", "negative lengths are unspecified"},
			Need:   []string{"messages", "bodies cut short", "empty bodies", "bytes left for the next reader", "empty lines before the start line", "lengths refused"}},
		{ID: "S03", Level: "exploration", Quick: 150000, Thorough: 8000000, Run: written,
			Rule:   "messages made through the constructors and setters and messages parsed before, written, read by an independent reader of the wire format and parsed back; distinct by kind, header and body shape",
			Assume: []string{"names in a header map are lower case, values have no surrounding white space or line ends"},
			Need:   []string{"requests written", "responses written", "stale lengths replaced", "parsed messages written again", "headers with several values", "messages without body"}},
		{ID: "S04", Level: "exploration", Quick: 400000, Thorough: 25000000, Run: values,
			Rule:   "URIs, addresses, Via and CSeq values in every supported notation, parsed, written, read by independent readers and parsed again; distinct by scheme, parts present, name and parameter count",
			Assume: []string{"user parts with ';' are within angle brackets, as RFC 3261 demands"},
			Need:   []string{"URI round trips", "address round trips", "Via round trips", "CSeq round trips", "copies between forms", "addresses with quoted parameters", "address with no name", "address with a name to escape", "address with punctuation in the name"}},
		{ID: "S05", Level: "exploration", Quick: 300000, Thorough: 15000000, Run: lists,
			Rule:   "parameter lists with bare, empty, plain and quoted elements under all separators, and the three printed forms; distinct by element kinds, separator and size",
			Assume: []string{"keys differ, values are valid UTF-8 and, where printed, printable"},
			Need:   []string{"lists", "digests", "digests of requests", "separators within quotes", "elements bare", "elements quoted", "elements empty", "SemicolonString round trips", "CommaString round trips", "CRLFString round trips"}},
		{ID: "S06", Level: "exploration", Quick: 120000, Thorough: 8000000, Directed: len(hostile), Run: safe,
			Rule:   "valid, mutated, spliced and random messages and value strings, in pieces and with reader faults at any position; distinct by outcome, size and mutation",
			Assume: []string{"allocation bound 64 KiB + 1000 bytes per input byte"},
			Need:   []string{"messages accepted", "messages refused", "deliveries compared", "faults reported", "strings parsed", "substrings", "huge lengths declared"}},
		{ID: "S07", Level: "exploration", Quick: 300000, Thorough: 20000000, Directed: 3, Run: tables,
			Rule:   "directed: every status code from -1100 to 70000, every letter case of every method and version, every 16-bit method number, neighbours of each text; random: arbitrary texts; distinct by text",
			Assume: nil,
			Need:   []string{"status codes", "status constants", "method texts accepted", "method texts refused", "version texts accepted", "version texts refused", "random texts"}},
	}
}

// judge compares a parsed message with the reference; "" if equal.
func (m *message) judge(c *mon.C, s *sips.SIP, clen string) string {
	if s.IsResponse != m.resp {
		return fmt.Sprintf("IsResponse is %v", s.IsResponse)
	}
	if int(s.Version) != m.version {
		return fmt.Sprintf("version %d, want %d", s.Version, m.version)
	}
	if m.resp {
		if int(s.ResponseCode) != m.code || s.ResponseStatus != m.reason {
			return fmt.Sprintf("status %d %q, want %d %q", s.ResponseCode, s.ResponseStatus, m.code, m.reason)
		}
	} else {
		if s.Method.String() != m.method {
			return fmt.Sprintf("method %v, want %s", s.Method, m.method)
		}
		if d := sameRequest(s.Request, m.uri); d != "" {
			return "request URI: " + d
		}
		if s.Request.Src != m.uriText {
			return fmt.Sprintf("request URI source %q, want %q", s.Request.Src, m.uriText)
		}
	}
	total := 1
	seen := map[string]bool{"content-length": true}
	for _, f := range append([]field{{"content-length", clen}}, m.fields...) {
		if f.name != "content-length" {
			total++
		}
		if f.name != "content-length" && seen[f.name] {
			continue
		}
		seen[f.name] = true
		want := m.values(f.name)
		if f.name == "content-length" {
			want = []string{clen}
		}
		ask := anyCase(c, f.name)
		got := s.Headers.GetHeader(ask)
		if !equal(got, want) {
			return fmt.Sprintf("header %q (compact: %v): %q, want %q", ask, m.short[f.name], got, want)
		}
		if g := s.Headers.GetFirstHeader(ask); g != want[0] {
			return fmt.Sprintf("first header %q: %q, want %q", ask, g, want[0])
		}
		if m.short[f.name] {
			c.Event("compact names found")
			if m.mixed && len(want) > 1 {
				c.Event("headers in both forms")
			}
		}
		if len(want) > 1 {
			c.Event("repeated headers")
		}
	}
	n := 0
	for k, v := range s.Headers.GetAllHeaders() {
		n += len(v)
		if k != strings.ToLower(k) {
			return fmt.Sprintf("header name %q is not in lower case", k)
		}
	}
	if n != total {
		return fmt.Sprintf("%d header values, want %d: %q", n, total, s.Headers.GetAllHeaders())
	}
	if got := s.Headers.GetHeader("no-such-header"); len(got) != 0 || s.Headers.GetFirstHeader("no-such-header") != "" {
		return "an absent header has values"
	}
	if m.parsed["from"] {
		if d := sameUser(s.From, m.from); d != "" {
			return "From: " + d
		}
	}
	if m.parsed["to"] {
		if d := sameUser(s.To, m.to); d != "" {
			return "To: " + d
		}
	}
	if m.parsed["contact"] {
		if d := sameUser(s.Contact, m.contact); d != "" {
			return "Contact: " + d
		}
	}
	if m.parsed["cseq"] {
		if d := sameCseq(s.Cseq, m.cseq); d != "" {
			return "CSeq: " + d
		}
	}
	if m.parsed["via"] {
		if d := sameVia(s.Via, m.via); d != "" {
			return "Via: " + d
		}
	}
	return ""
}

func equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (m *message) names() string {
	var n []string
	for _, f := range m.fields {
		n = append(n, f.name)
	}
	sort.Strings(n)
	return strings.Join(n, ",")
}

func parse(c *mon.C) {
	m := newMessage(c)
	m.body = newBody(c)
	n := strconv.Itoa(len(m.body))
	if c.P(15) {
		badStart(c, m, n)
		return
	}
	open := len(m.body) == 0 && c.P(20)
	m.build(c, n, open)
	c.Note("message %q", m.head)
	s := sips.NewSIP()
	var err error
	wire := m.wire
	if c.P(5) {
		wire = append(blanks(c, m.nl), wire...)
		c.Event("empty lines before the start line")
	}
	if c.P(70) {
		err = s.ParseBytes(wire)
	} else {
		r, how := kit.Chunked(c, wire)
		c.Note("delivery %s", how)
		err = s.Parse(bufio.NewReaderSize(r, mon.Pick(c, 16, 100, 4096, 4096, 20000)))
	}
	if err != nil {
		c.Fail("a well-formed message was refused: %v", err)
	}
	if d := m.judge(c, s, n); d != "" {
		c.Fail("%s", d)
	}
	if c.P(10) {
		lines(c, m)
	}
	if g := s.Headers.GetCallID(); len(m.values("call-id")) > 0 && g != m.values("call-id")[0] {
		c.Fail("call ID %q, want %q", g, m.values("call-id")[0])
	}
	if g, err := s.Headers.GetContentLength(); err != nil || g != len(m.body) {
		c.Fail("content length %d, %v, want %s", g, err, n)
	}
	if v := m.values("expires"); len(v) > 0 && s.Headers.GetExpires() != v[0] {
		c.Fail("expires %q, want %q", s.Headers.GetExpires(), v[0])
	}
	if m.resp {
		c.Event("responses")
	} else {
		c.Event("requests")
	}
	if m.nl == "\n" {
		c.Event("LF messages")
	}
	folds := bytes.Count(m.head, []byte(m.nl+" ")) + bytes.Count(m.head, []byte(m.nl+"\t"))
	if folds > 0 {
		c.EventN("folded values", folds)
	}
	for _, f := range m.fields {
		if len(f.val) > 4096 {
			c.Event("values beyond the read buffer")
		}
	}
	c.EventN("header fields", len(m.fields)+1)
	c.Shape(m.resp, m.names(), folds, len(m.short), len(m.nl))
	c.Sample("%q", m.head)
}

// blanks returns empty lines.
func blanks(c *mon.C, nl string) []byte {
	return []byte(strings.Repeat(nl, mon.Pick(c, 1, 2, 2, c.Range(1, 40))))
}

// lines gives the parser the message line by line.
func lines(c *mon.C, m *message) {
	s := sips.NewSIP()
	for i, l := range strings.Split(strings.TrimRight(string(m.head), "\r\n"), m.nl) {
		if i == 0 {
			if err := s.ParseFirstLine([]byte(l)); err != nil {
				c.Fail("ParseFirstLine(%q): %v", l, err)
			}
			continue
		}
		b := []byte(l)
		s.ParseHeader(b) // an empty fold may leave a space at either end
		for i := range b {
			b[i] = '#' // the line is the caller's
		}
	}
	if m.resp != s.IsResponse || int(s.Version) != m.version || m.resp && (int(s.ResponseCode) != m.code || s.ResponseStatus != m.reason) || !m.resp && s.Method.String() != m.method {
		c.Fail("line by line: response %v, version %v, status %v %q, method %v from %q", s.IsResponse, s.Version, s.ResponseCode, s.ResponseStatus, s.Method, m.head)
	}
	for _, f := range m.fields {
		if got, want := cleaned(s.Headers.GetHeader(f.name)), m.values(f.name); !equal(got, want) {
			c.Fail("line by line: header %q: %q, want %q", f.name, got, want)
		}
	}
	c.Event("messages parsed line by line")
}

// badStart replaces the start line by a malformed one.
func badStart(c *mon.C, m *message, n string) {
	m.build(c, n, false)
	i := bytes.IndexByte(m.wire, '\n')
	ver := fmt.Sprintf("SIP/%d.0", m.version)
	var line string
	if m.resp {
		line = mon.Pick(c,
			"SIP/3.0 200 OK", "SIP/2.1 200 OK", "SIP/2 200 OK", "SIP 200 OK", "SIP/ 200 OK", "SIPS/2.0 200 OK", "SIP/20 200 OK", "SIP/2.0/UDP 200 OK",
			"HTTP/1.1 200 OK", "RTSP/1.0 200 OK", ver, ver+" 200", ver+" OK 200", ver+" 2x0 OK", ver+"  200 OK", ver+" 0x10 OK", ver+" 2.5 OK", ver+" 20O OK", ver+" \u0662\u0660\u0660 OK")
	} else {
		line = mon.Pick(c,
			"FOO "+m.uriText+" "+ver, "INVIT "+m.uriText+" "+ver, "INVITES "+m.uriText+" "+ver, " "+m.method+" "+m.uriText+" "+ver, m.method, m.method+" "+m.uriText, m.method+" "+ver,
			m.method+" "+m.uriText+" SIP/3.0", m.method+" "+m.uriText+" SIP/2", m.method+" "+m.uriText+" HTTP/1.1", m.method+" "+m.uriText+" SIP/2.0x", m.method+" "+m.uriText+" XSIP/2.0",
			m.method+" "+m.uriText+" "+ver+" x", m.method+"\t"+m.uriText+"\t"+ver, "GET / HTTP/1.1", "\u0131NVITE "+m.uriText+" "+ver, m.uriText+" "+m.method+" "+ver)
	}
	wire := append([]byte(line+m.nl), m.wire[i+1:]...)
	c.Note("start line %q", line)
	s := sips.NewSIP()
	if err := s.ParseBytes(wire); err == nil {
		c.Fail("the malformed start line %q was accepted", line)
	}
	c.Event("start lines refused")
	c.Shape("bad", line)
}

// payload judges the payload of a parsed message: it should be the body. The
// recorded finding K5 puts the blank line before it.
func payload(c *mon.C, what string, got, want []byte, sep string) {
	if sep != "" && bytes.Equal(got, append([]byte(sep), want...)) {
		c.Known("K5", "%s: the payload starts with the blank line", what)
		return
	}
	if bytes.Equal(got, want) {
		return
	}
	c.Fail("%s: payload: %s", what, mon.Diff(got, append([]byte(sep), want...)))
}

func framing(c *mon.C) {
	if _, ok := c.Directed(); ok {
		big(c)
		return
	}
	if c.P(15) {
		m := newMessage(c)
		m.body = newBody(c)
		bad := mon.Pick(c, "-", "", "abc", "12a", "1 2", "0x10", "1.5", "a", "--1", "\u0663", "1,2", "NaN", "12\x00", "1_000", "1e3", ";", "5;x", "99999999999999999999")
		m.build(c, bad, false)
		c.Note("content length %q in %q", bad, m.head)
		s := sips.NewSIP()
		if err := s.ParseBytes(m.wire); err == nil {
			c.Fail("a message with the content length %q was accepted", bad)
		}
		c.Event("lengths refused")
		c.Shape("bad", bad, len(m.body))
		return
	}
	n := c.Steps(1, mon.Pick(c, 1, 3, 6))
	var ms []*message
	var stream, short []byte
	cut := false
	for i := 0; i < n; i++ {
		m := newMessage(c)
		m.body = newBody(c)
		cl := strconv.Itoa(len(m.body))
		if c.P(3) {
			cl = "00" + cl
		}
		if i == n-1 && c.P(6) { // declares more than there is
			cl = strconv.FormatInt(int64(len(m.body))+min(mon.Pick[int64](c, 1, 2, 100, 1<<20, 1<<31, 1<<40), math.MaxInt-1<<20), 10)
			cut = true
			short = m.body
		}
		m.build(c, cl, false)
		ms = append(ms, m)
		if c.P(10) { // keeps the connection alive
			stream = append(stream, blanks(c, m.nl)...)
			c.Event("empty lines before the start line")
		}
		stream = append(stream, m.wire...)
	}
	var tail []byte
	last := ms[n-1]
	switch {
	case cut:
	case c.P(30) && len(last.body) > 0: // the input ends early
		k := c.N(len(last.body))
		if c.P(20) {
			k = 0
		}
		stream = stream[:len(stream)-len(last.body)+k]
		short = last.body[:k]
		cut = true
	case c.P(50):
		tail = newBody(c)
		stream = append(stream, tail...)
	}
	r, how := kit.Chunked(c, stream)
	size := mon.Pick(c, 16, 64, 4096, 4096, 8192, 65536)
	br := bufio.NewReaderSize(r, size)
	c.Note("%d messages, %d bytes, delivery %s, buffer %d, cut %v, tail %d", n, len(stream), how, size, cut, len(tail))
	parsed := make([]*sips.SIP, n)
	want := make([][]byte, n)
	for i, m := range ms {
		s := sips.NewSIP()
		if err := s.Parse(br); err != nil {
			c.Fail("message %d of %d refused: %v\n%q", i+1, n, err, m.head)
		}
		want[i] = m.body
		if i == n-1 && cut {
			want[i] = short
		}
		payload(c, fmt.Sprintf("message %d of %d", i+1, n), s.Payload(), want[i], m.nl)
		// contents and payload together are the message
		if all := append(append([]byte(nil), s.LayerContents()...), s.LayerPayload()...); !bytes.Equal(all, m.wire[:len(m.head)+len(m.nl)+len(want[i])]) {
			c.Fail("message %d of %d: contents and payload: %s", i+1, n, mon.Diff(all, m.wire))
		}
		if d := m.judge(c, s, m.cl); d != "" {
			c.Fail("message %d of %d: %s\n%q", i+1, n, d, m.head)
		}
		parsed[i] = s
		c.Event("messages")
		if len(m.body) == 0 {
			c.Event("empty bodies")
		}
	}
	rest, err := io.ReadAll(br)
	if err != nil || !bytes.Equal(rest, tail) {
		c.Fail("after the messages the reader holds %s", mon.Diff(rest, tail))
	}
	if len(tail) > 0 {
		c.Event("bytes left for the next reader")
	}
	if cut {
		c.Event("bodies cut short")
	}
	for i := range parsed {
		payload(c, fmt.Sprintf("message %d of %d after the rest of the stream was read", i+1, n), parsed[i].Payload(), want[i], ms[i].nl)
	}
	c.Shape(n, len(stream)/16, cut, len(tail), how, size)
	c.Sample("%d messages, %d bytes, delivery %s, cut %v, tail %d", n, len(stream), how, cut, len(tail))
}

// big is one message with a body of several megabytes behind another message.
func big(c *mon.C) {
	body := c.Bytes(5 << 20)
	head := fmt.Sprintf("MESSAGE sip:a@b SIP/2.0\r\nContent-Length: %d\r\n\r\n", len(body))
	next := "BYE sip:a@b SIP/2.0\r\nl:0\r\n\r\n"
	br := bufio.NewReader(kit.NewReader([]byte(head + string(body) + next)))
	a, b := sips.NewSIP(), sips.NewSIP()
	if err := a.Parse(br); err != nil {
		c.Fail("%v", err)
	}
	payload(c, "a large body", a.Payload(), body, "\r\n")
	if err := b.Parse(br); err != nil || b.Method != sips.SIPMethodBye {
		c.Fail("the message behind a large body: %v, %v", err, b.Method)
	}
	c.Event("messages")
}

// wireMsg is what an independent reader of the wire format sees.
type wireMsg struct {
	start  string
	fields []field // folded lines still apart, joined by "\x00"
	blank  bool
	body   []byte
}

func readWire(p []byte) (*wireMsg, string) {
	w := &wireMsg{}
	first := true
	for len(p) > 0 {
		i := bytes.Index(p, []byte("\r\n"))
		if i < 0 {
			return nil, fmt.Sprintf("the line %q has no CRLF", p)
		}
		line := string(p[:i])
		p = p[i+2:]
		if strings.ContainsAny(line, "\r\n") {
			return nil, fmt.Sprintf("the line %q has a bare CR or LF", line)
		}
		switch {
		case first:
			w.start, first = line, false
			if line == "" {
				return nil, "the start line is empty"
			}
		case line == "":
			w.blank, w.body = true, p
			return w, ""
		case line[0] == ' ' || line[0] == '\t':
			if len(w.fields) == 0 {
				return nil, "a continuation line without header"
			}
			w.fields[len(w.fields)-1].val += "\x00" + strings.Trim(line, " \t")
		default:
			k := strings.IndexByte(line, ':')
			if k <= 0 {
				return nil, fmt.Sprintf("the header line %q has no name", line)
			}
			w.fields = append(w.fields, field{strings.ToLower(strings.TrimRight(line[:k], " \t")), strings.Trim(line[k+1:], " \t")})
		}
	}
	return w, ""
}

// writes judges s.Bytes() and the parsed copy; hdr are the header values it
// should carry, without content length.
func writes(c *mon.C, s *sips.SIP, start string, startPrefix bool, hdr map[string][]string, u uri) *sips.SIP {
	body := append([]byte(nil), s.Payload()...)
	out := s.Bytes()
	if c.P(25) {
		out = []byte(s.String())
	}
	c.Note("written as %s", mon.Hex(out))
	if c.P(10) {
		a, b := strings.Split(s.Headers.String(), "\r\n"), strings.Split(string(s.Headers.Bytes()), "\r\n")
		sort.Strings(a)
		sort.Strings(b)
		if strings.Join(a, "\n") != strings.Join(b, "\n") {
			c.Fail("the headers as text: %q, as bytes: %q", a, b)
		}
	}
	w, bad := readWire(out)
	if bad != "" {
		c.Fail("written message: %s: %q", bad, head(out))
	}
	if !w.blank {
		if len(body) != 0 {
			c.Fail("no blank line before the body: %q", head(out))
		}
		c.Known("K7", "a message with an empty body has no blank line: %q", head(out))
	}
	if !startPrefix && w.start != start || startPrefix && !strings.HasPrefix(w.start, start) {
		c.Fail("start line %q, want %q", w.start, start)
	}
	if !bytes.Equal(w.body, body) && len(w.body)+len(body) > 0 {
		c.Fail("body written: %s", mon.Diff(w.body, body))
	}
	got := map[string][]string{}
	nlen := 0
	for _, f := range w.fields {
		if f.name == "content-length" || f.name == "l" {
			nlen++
			if f.val != strconv.Itoa(len(body)) {
				c.Fail("content length %q written for a body of %d bytes: %q", f.val, len(body), head(out))
			}
			continue
		}
		got[long(f.name)] = append(got[long(f.name)], f.val)
	}
	if nlen != 1 {
		c.Fail("%d content lengths written: %q", nlen, head(out))
	}
	for k, v := range hdr {
		c2 := cleaned(v)
		if equal(got[k], c2) {
			continue
		}
		if len(v) > 1 && len(got[k]) == 1 && equal(strings.Split(got[k][0], "\x00"), c2) {
			c.Known("K6", "header %q with the values %q is written as one folded line", k, v)
			c.Event("headers with several values")
			continue
		}
		c.Fail("header %q written as %q, want %q", k, got[k], v)
	}
	for k := range got {
		if _, ok := hdr[k]; !ok {
			c.Fail("header %q written, which the message does not have", k)
		}
	}
	// and back
	p := sips.NewSIP()
	if err := p.ParseBytes(out); err != nil {
		c.Fail("the written message does not parse: %v: %q", err, head(out))
	}
	if p.IsResponse != s.IsResponse || p.Version != s.Version || p.Method != s.Method || p.ResponseCode != s.ResponseCode {
		c.Fail("parsed back: response %v, version %v, method %v, code %v; want %v, %v, %v, %v", p.IsResponse, p.Version, p.Method, p.ResponseCode, s.IsResponse, s.Version, s.Method, s.ResponseCode)
	}
	if !s.IsResponse {
		if d := sameRequest(p.Request, u); d != "" {
			c.Fail("parsed back: request URI: %s", d)
		}
	}
	sep := ""
	if w.blank {
		sep = "\r\n"
	}
	payload(c, "parsed back", p.Payload(), body, sep)
	n := 0
	for k, v := range p.Headers {
		if k == "content-length" || k == "l" {
			if !equal(v, []string{strconv.Itoa(len(body))}) {
				c.Fail("parsed back: content length %q for %d bytes", v, len(body))
			}
			continue
		}
		n++
		k = long(k)
		want := hdr[k]
		if equal(v, want) {
			continue
		}
		if len(want) > 1 && equal(v, []string{joined(cleaned(want))}) {
			c.Known("K6", "header %q with the values %q parses back as %q", k, want, v)
			continue
		}
		c.Fail("parsed back: header %q is %q, want %q", k, v, want)
	}
	if n != len(hdr) {
		c.Fail("parsed back: %d headers, want %d: %q, want %q", n, len(hdr), p.Headers, hdr)
	}
	return p
}

func head(p []byte) []byte { return p[:min(len(p), 2000)] }

func cleaned(v []string) []string {
	out := make([]string, len(v))
	for i := range v {
		out[i] = strings.Trim(v[i], " \t")
	}
	return out
}

// written is the S03 monitor.
func written(c *mon.C) {
	m := newMessage(c)
	m.version = 2
	m.body = newBody(c)
	hdr := map[string][]string{}
	var s *sips.SIP
	start, prefix := "", false
	stale := false
	if c.P(30) { // a message parsed before
		m.version = mon.Pick(c, 2, 1)
		m.build(c, strconv.Itoa(len(m.body)), false)
		c.Note("first parsed from %q", m.head)
		s = sips.NewSIP()
		if err := s.ParseBytes(m.wire); err != nil {
			c.Fail("refused: %v", err)
		}
		for _, f := range m.fields {
			hdr[f.name] = append(hdr[f.name], f.val)
		}
		if c.P(50) {
			s.SetBody(m.body)
		} else if c.P(30) {
			s.SetBody(nil)
		}
		c.Event("parsed messages written again")
	} else {
		h := sips.NewSIPHeader()
		set := func(k string, v ...string) {
			delete(h, long(k))
			delete(h, compact[k])
			h[k] = v
			if len(v) > 0 {
				hdr[long(k)] = v
			}
		}
		for _, f := range m.fields {
			k := f.name
			if m.short[k] {
				k = compact[k]
			}
			v := f.val
			switch c.N(4) {
			case 0:
				if k == f.name && len(hdr[f.name]) == 0 {
					h.SetFirstHeader(anyCase(c, k), v)
					hdr[k] = []string{v}
					break
				}
				set(k, append(append([]string(nil), hdr[f.name]...), v)...)
			case 1:
				set(k, append(append([]string(nil), hdr[f.name]...), v)...)
			case 2:
				src := sips.NewSIPHeader()
				src.SetFirstHeader(f.name, v)
				delete(h, compact[f.name])
				h.CopyFrom(src, anyCase(c, f.name))
				hdr[f.name] = []string{v}
			default:
				set(k, v)
			}
		}
		typed(c, h, hdr)
		if c.P(3) {
			h["x-none"] = nil
		}
		if c.P(3) {
			h["x-none"] = []string{}
		}
		switch c.N(6) {
		case 0:
			h.SetContentLength(c.N(100000))
			stale = true
		case 1:
			h["content-length"] = []string{mon.Pick(c, "999", "", "abc", "0")}
			stale = true
		case 2:
			h["l"] = []string{strconv.Itoa(c.N(1000))}
			stale = true
		case 3:
			h["l"] = []string{strconv.Itoa(c.N(1000))}
			h["content-length"] = []string{"5", "6"}
			stale = true
		}
		if len(h) == 0 && c.P(50) {
			h = nil
		}
		body := m.body
		if m.resp {
			s = sips.MakeResponse(sips.SIPStatus(m.code), h, body)
		} else {
			code, err := sips.GetSIPMethod(m.method)
			if err != nil {
				c.Fail("%v", err)
			}
			s = sips.MakeRequest(code, sipRequest(m.uri), h, body)
		}
		switch c.N(6) {
		case 0:
			s.SetBody(m.body)
		case 1:
			m.body = newBody(c)
			s.SetBody(m.body)
		case 2:
			s.SetHeader(h)
			if h == nil {
				s.SetHeader(sips.NewSIPHeader())
			}
		}
		if !bytes.Equal(s.Payload(), m.body) {
			c.Fail("the payload of the made message is not its body: %s", mon.Diff(s.Payload(), m.body))
		}
		if c.P(20) {
			m.version = 1
			s.Version = sips.SIPVersion1
		}
	}
	ver := fmt.Sprintf("SIP/%d.0", m.version)
	if m.resp {
		start, prefix = fmt.Sprintf("%s %d ", ver, m.code), true
		c.Event("responses written")
	} else {
		// parameters come in any order
		start, prefix = m.method+" "+m.uri.canonical(), true
		c.Event("requests written")
	}
	if stale {
		c.Event("stale lengths replaced")
	}
	if len(s.Payload()) == 0 {
		c.Event("messages without body")
	}
	p := writes(c, s, start, prefix, hdr, m.uri)
	if !m.resp {
		if f := strings.Split(firstLine(s.Bytes()), " "); len(f) != 3 || f[2] != ver {
			c.Fail("start line %q, want three parts ending in %s", firstLine(s.Bytes()), ver)
		}
	}
	// what was parsed back can be written again
	if c.P(40) {
		h2 := map[string][]string{}
		for k, v := range p.Headers {
			if k != "content-length" && k != "l" {
				h2[long(k)] = append([]string(nil), v...)
			}
		}
		writes(c, p, start, prefix, h2, m.uri)
	}
	// and the message itself, with another body
	if c.P(40) {
		s.SetBody(newBody(c))
		writes(c, s, start, prefix, hdr, m.uri)
		c.Event("stale lengths replaced")
	}
	c.Shape(m.resp, m.names(), len(m.body), stale)
	c.Sample("%q", head(s.Bytes()))
}

// long is the long name of a header.
func long(k string) string {
	for l, s := range compact {
		if s == k {
			return l
		}
	}
	return k
}

func firstLine(p []byte) string {
	i := bytes.Index(p, []byte("\r\n"))
	if i < 0 {
		return string(p)
	}
	return string(p[:i])
}

// typed uses the header's setters for some of the headers.
func typed(c *mon.C, h sips.SIPHeader, hdr map[string][]string) {
	put := func(k, v string) { hdr[k] = []string{v}; delete(h, compact[k]) }
	// writing parameters has no order: the text is taken from the map and
	// judged by parsing it
	if c.P(15) {
		u := newAddress(c)
		h.SetSIPFrom(sipUser(u))
		if d := sameUser(h.GetSIPFrom(), u); d != "" {
			c.Fail("SetSIPFrom: %s", d)
		}
		put("from", h["from"][0])
	}
	if c.P(15) {
		u := newAddress(c)
		h.SetSIPTo(sipUser(u))
		if d := sameUser(h.GetSIPTo(), u); d != "" {
			c.Fail("SetSIPTo: %s", d)
		}
		put("to", h["to"][0])
	}
	if c.P(15) {
		u := newAddress(c)
		h.SetSIPContact(sipUser(u))
		if d := sameUser(h.GetSIPContact(), u); d != "" {
			c.Fail("SetSIPContact: %s", d)
		}
		put("contact", h["contact"][0])
	}
	if c.P(15) {
		q := newCseq(c)
		h.SetSIPCseq(sips.NewSIPCseq(q.id + " " + q.method))
		if d := sameCseq(h.GetSIPCseq(), q); d != "" {
			c.Fail("SetSIPCseq: %s", d)
		}
		put("cseq", q.id+" "+q.method)
	}
	if c.P(15) {
		v := newVia(c)
		h.SetSIPVia(sipVia(v))
		if d := sameVia(h.GetSIPVia(), v); d != "" {
			c.Fail("SetSIPVia: %s", d)
		}
		put("via", h["via"][0])
	}
	one := func(k string, f func(string)) {
		if c.P(8) {
			v := headerValue(c)
			f(v)
			put(k, v)
		}
	}
	one("call-id", h.SetCallID)
	one("reason-phrase", h.SetReasonPhrase)
	one("supported", h.SetSupported)
	one("subject", h.SetSubject)
	one("content-type", h.SetContentType)
	one("allow", h.SetAllow)
	if c.P(8) {
		n := int(mon.Pick(c, int64(c.N(256)), int64(c.N(256)), 256, 257, 999, 65535, 65536, 1<<31-1, 1<<31, 1<<40))
		h.SetMaxForwards(n)
		put("max-forwards", strconv.Itoa(n))
	}
}

// joined is what the lines of a folded header value are read as.
func joined(v []string) string {
	s := ""
	for _, l := range v {
		s = strings.TrimRight(s, " \t") + " " + strings.Trim(l, " \t")
	}
	return strings.Trim(s, " \t")
}
