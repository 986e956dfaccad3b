// Package sips holds the monitors of the SIP package.
package sips

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"verif/mon"
)

const (
	letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	digits  = "0123456789"
	token   = letters + digits + "-.!%*_+`'~"
)

// length is a length from lo to hi, now and then one far beyond.
func length(c *mon.C, lo, hi int) int {
	if hi >= 8 && c.N(1200) == 0 {
		if c.P(80) {
			return mon.Pick(c, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 1000, 1024)
		}
		return mon.Pick(c, 1025, 2048, 4095, 4096, 4097, 8192, 9999, 16384, 32768, 65535, 65536, 70000)
	}
	return c.Range(lo, hi)
}

func text(c *mon.C, lo, hi int, set string) string {
	n := length(c, lo, hi)
	b := make([]byte, n)
	for i := range b {
		b[i] = set[c.N(len(set))]
	}
	return string(b)
}

// rich returns text without control characters, partly beyond ASCII, without
// surrounding space and without any of the runes in not.
func rich(c *mon.C, lo, hi int, not string) string {
	n := length(c, lo, hi)
	out := make([]rune, 0, n)
	for len(out) < n {
		var r rune
		switch c.N(6) {
		case 0:
			r = mon.Pick(c, 'é', 'ß', '中', '文', '日', 'Ω', '😀', 'ı', 'ſ', 'к', '\u200d', '\u00a0', '\u00ad', '\u3000', '\u202e', '\ufeff', '\ufffd', '\U0010fffd')
		case 1:
			r = rune(c.Range(0x20, 0x7e))
		case 2:
			r = mon.Pick(c, ' ', ':', ';', ',', '=', '<', '>', '@', '"', '\\', '(', '&', '/')
		default:
			r = rune(letters[c.N(len(letters))])
		}
		if strings.ContainsRune(not, r) || unicode.IsControl(r) {
			r = 'x'
		}
		if unicode.IsSpace(r) && (len(out) == 0 || len(out) == n-1) {
			r = 'y'
		}
		out = append(out, r)
	}
	s := string(out)
	if n > 0 && c.P(3) { // a byte that is no UTF-8 (as Latin-1)
		if i := c.N(len(s)); s[i] > ' ' && s[i] < 0x7f {
			s = s[:i] + string([]byte{byte(c.Range(0x80, 0xff))}) + s[i+1:]
		}
	}
	return s
}

// pair is one parameter, val empty for one without value.
type pair struct{ key, val string }

func pairMap(ps []pair) map[string]string {
	m := make(map[string]string, len(ps))
	for _, p := range ps {
		m[p.key] = p.val
	}
	return m
}

func hasKey(ps []pair, k string) bool {
	for _, p := range ps {
		if p.key == k {
			return true
		}
	}
	return false
}

// params returns parameters with different keys and token-like values.
func params(c *mon.C, max int) []pair {
	var ps []pair
	n := c.N(max + 1)
	if n > 0 && c.N(500) == 0 {
		n = mon.Pick(c, 16, 17, 32, 33, 64, 65, 100, 257)
	}
	for ; n > 0; n-- {
		k := mon.Pick(c, "tag", "branch", "rport", "received", "transport", "user", "lr", "expires", "q", "ttl", "maddr", text(c, 1, 12, token))
		if hasKey(ps, k) {
			continue
		}
		p := pair{key: k}
		if c.P(75) {
			p.val = text(c, 1, 16, token+":/@[]=&?$")
		}
		ps = append(ps, p)
	}
	return ps
}

// paramText writes parameters behind semicolons; sp allows a space before one.
func paramText(c *mon.C, ps []pair, sp bool) string {
	var b strings.Builder
	for _, p := range ps {
		if sp && c.P(20) {
			b.WriteByte(' ')
		}
		b.WriteByte(';')
		if sp && c.P(10) {
			b.WriteByte(' ')
		}
		b.WriteString(p.key)
		if p.val != "" {
			if sp && c.P(8) {
				b.WriteString(mon.Pick(c, " = ", " =", "= ", "  =\t"))
			} else {
				b.WriteByte('=')
			}
			b.WriteString(p.val)
		}
	}
	return b.String()
}

// uri is the reference form of a URI or an address.
type uri struct {
	scheme, name, user, host, port string
	args                           []pair
	shown                          string // scheme as written
}

func host(c *mon.C) string {
	switch c.N(3) {
	case 0:
		if c.P(30) { // IPv6
			return "[" + mon.Pick(c, "::1", "::", "2001:db8::7", "fe80::1:2:3:4", "::ffff:192.0.2.1", "1:2:3:4:5:6:7:8", "2001:DB8:0:0:0:0:0:1") + "]"
		}
		return fmt.Sprintf("%d.%d.%d.%d", c.N(256), c.N(256), c.N(256), c.N(256))
	case 1:
		return text(c, 1, 10, letters+digits) + "." + text(c, 1, 6, letters+digits+"-.") + "com"
	}
	return text(c, 1, 20, letters+digits+"-.")
}

// port returns a port, often one with a meaning of its own.
func port(c *mon.C) string {
	zeros := ""
	if c.P(2) {
		zeros = mon.Pick(c, "0", "00", "000000")
	}
	return zeros + strconv.Itoa(mon.Pick(c, c.N(65536), c.N(65536), c.N(65536), 5060, 5060, 5061, 5061, mon.Pick(c, 0, 1, 80, 443, 5060, 5061, 8080, 65535)))
}

// newURI returns a URI without display name.
func newURI(c *mon.C) uri {
	u := uri{scheme: mon.Pick(c, "sip", "sip", "sips", "tel")}
	if u.scheme == "tel" {
		u.user = mon.Pick(c, "+", "") + text(c, 1, 15, digits+"-.()")
	} else {
		if c.P(80) {
			u.user = text(c, 1, 24, letters+digits+"-_.!~*'()&=+$,?/%#")
			if c.P(10) { // parameters of the user part
				u.user += mon.Pick(c, ";", ";day=tuesday", ";a=b;c", ";;") + text(c, 0, 4, letters+digits+";=")
			}
			if c.P(10) {
				u.user += ":" + text(c, 0, 8, letters+digits+"&=+$,") // a password
			}
			if c.P(10) {
				u.user = mon.Pick(c, "sip", "sips", "tel", "SIP", "s", "0") + u.user
			}
		}
		u.host = host(c)
		if c.P(50) {
			u.port = port(c)
		}
	}
	u.args = params(c, mon.Pick(c, 0, 1, 3, 6))
	if u.user == "" { // an '@' ends the user part
		for i := range u.args {
			u.args[i].val = strings.ReplaceAll(u.args[i].val, "@", "*")
		}
	}
	if c.P(10) {
		u.shown = anyCase(c, u.scheme)
	}
	return u
}

// canonical is the URI as the library writes it, without parameters.
func (u uri) canonical() string {
	u.shown = ""
	return u.core()
}

func (u uri) core() string {
	s := u.scheme + ":" + u.user
	if u.shown != "" {
		s = u.shown + ":" + u.user
	}
	if u.host != "" {
		if u.user != "" {
			s += "@"
		}
		s += u.host
		if u.port != "" {
			s += ":" + u.port
		}
	}
	return s
}

// address writes u in one of the forms of an address header.
func (u uri) address(c *mon.C) string {
	if u.name == "" && !strings.Contains(u.user, ";") && c.P(25) {
		return u.core() + paramText(c, u.args, true)
	}
	var b strings.Builder
	if u.name != "" {
		plain := true
		for i := 0; i < len(u.name); i++ {
			if !strings.Contains(token+" ", u.name[i:i+1]) {
				plain = false
			}
		}
		if plain && c.P(50) {
			b.WriteString(u.name)
		} else {
			b.WriteByte('"')
			for _, r := range []byte(u.name) {
				if r == '"' || r == '\\' || c.P(3) && r < 128 {
					b.WriteByte('\\')
				}
				b.WriteByte(r)
			}
			b.WriteByte('"')
		}
		b.WriteString(mon.Pick(c, " ", " ", "  ", ""))
	} else if c.P(5) {
		b.WriteString(`"" `)
	}
	k := 0
	if len(u.args) > 0 && c.P(40) {
		k = c.Range(1, len(u.args))
	}
	b.WriteString("<" + u.core() + paramText(c, u.args[:k], false) + ">")
	b.WriteString(paramText(c, u.args[k:], true))
	return b.String()
}

func newAddress(c *mon.C) uri {
	u := newURI(c)
	switch c.N(5) {
	case 0:
		u.name = rich(c, 1, 20, "")
	case 1:
		u.name = mon.Pick(c, "Bob", "Anonymous", "anonymous", "ANONYMOUS", "Mr. Watson", "sip:a@b", "<sip:x@y>", `A "B" C`, `back\slash`, "a;b=c", "a,b", `"`, `\`, "<", ">", "tel:1;x")
	case 2:
		u.name = strings.TrimSpace(text(c, 1, 12, token+" "))
	}
	return u
}

// via is the reference form of a Via value.
type via struct {
	trans, host, port string
	args              []pair
}

func newVia(c *mon.C) via {
	v := via{trans: mon.Pick(c, "UDP", "TCP", "TLS", "SCTP", mon.Pick(c, "UDP", "TCP", "WS", "WSS", "TLS-SCTP", "TLS-UDP", "udp", "Tcp", "T", "UD", "SCT", "UDPX", "SIP", "X-"+text(c, 1, 8, token))), host: host(c), args: params(c, mon.Pick(c, 0, 2, 5))}
	if c.P(50) {
		v.port = port(c)
	}
	return v
}

func (v via) text(c *mon.C) string {
	s := v.one(c)
	for c.P(5) { // more values behind a comma
		s += mon.Pick(c, ",", ", ", " , ") + newVia(c).one(c)
	}
	return s
}

// one is the text of v alone.
func (v via) one(c *mon.C) string {
	s := mon.Pick(c, "SIP/2.0/", "SIP/2.0/", "SIP/2.0/", "sip/2.0/", "Sip/2.0/") + v.trans + mon.Pick(c, " ", " ", "  ", "\t") + v.host
	if c.P(5) { // white space around the slashes
		p := strings.SplitN(s, "/", 3)
		s = p[0] + mon.Pick(c, "", " ", "  ", "\t") + "/" + mon.Pick(c, "", " ", "\t ") + p[1] + mon.Pick(c, "", " ") + "/" + mon.Pick(c, "", " ", "  ") + p[2]
	}
	if v.port != "" {
		s += mon.Pick(c, ":", ":", ":", " :", ": ", " : ") + v.port
	}
	return s + paramText(c, v.args, true)
}

// cseq is the reference form of a CSeq value.
type cseq struct{ id, method string }

func newCseq(c *mon.C) cseq {
	q := cseq{id: strconv.FormatUint(uint64(c.Uint32())>>c.N(32), 10), method: methods[c.N(len(methods))]}
	if c.P(3) {
		q.id = strings.Repeat("0", c.Range(1, 12)) + q.id
	}
	if c.P(10) {
		q.method = text(c, 1, 10, token)
	}
	return q
}

func (q cseq) text(c *mon.C) string {
	return q.id + mon.Pick(c, " ", " ", " ", "  ", "\t", " \t ") + q.method
}

var methods = []string{"INVITE", "ACK", "BYE", "CANCEL", "OPTIONS", "REGISTER", "PRACK", "SUBSCRIBE", "NOTIFY", "PUBLISH", "INFO", "REFER", "MESSAGE", "UPDATE", "PING"}

// compact is the table of RFC 3261 section 7.3.3 and the registrations after it.
var compact = map[string]string{
	"accept-contact": "a", "referred-by": "b", "content-type": "c", "request-disposition": "d",
	"content-encoding": "e", "from": "f", "call-id": "i", "reject-contact": "j", "supported": "k",
	"content-length": "l", "contact": "m", "event": "o", "refer-to": "r", "subject": "s", "to": "t",
	"allow-events": "u", "via": "v", "session-expires": "x", "identity": "y",
}

var longNames = func() (k []string) {
	for n := range compact {
		k = append(k, n)
	}
	sort.Strings(k)
	return
}()

// field is one header line: a name as in the reference and its value.
type field struct{ name, val string }

// message is the reference form of a message.
type message struct {
	resp    bool
	method  string
	uri     uri
	uriText string
	version int
	code    int
	reason  string
	fields  []field
	from    uri
	to      uri
	contact uri
	via     via
	cseq    cseq
	parsed  map[string]bool // which of the five parsed headers are present
	short   map[string]bool // names written in compact form
	mixed   bool            // each line of those in either form
	body    []byte
	nl      string
	cl      string // content length as written
	head    []byte // start line and headers
	wire    []byte
}

func (m *message) values(name string) []string {
	var v []string
	for _, f := range m.fields {
		if f.name == name {
			v = append(v, f.val)
		}
	}
	return v
}

func (m *message) add(name, val string) { m.fields = append(m.fields, field{name, val}) }

var plainNames = []string{"max-forwards", "user-agent", "content-type", "call-id", "subject", "supported", "allow", "event", "refer-to", "referred-by",
	"session-expires", "identity", "content-encoding", "accept-contact", "allow-events", "reject-contact", "request-disposition", "expires",
	"authorization", "record-route", "route", "x-a", "date", "server", "p"}

// headerValue returns any value without surrounding white space.
func headerValue(c *mon.C) string {
	switch c.N(6) {
	case 0:
		return ""
	case 1:
		return text(c, 1, 30, token)
	case 2:
		var w []string
		for n := c.Range(1, 8); n > 0; n-- {
			w = append(w, rich(c, 1, 8, " "))
		}
		if len(w) > 2 && c.P(10) { // white space elsewhere, which is none here
			w[1] = mon.Pick(c, "\u00a0", "\u3000x", "x\u2003", "\u0085", "\u2028a\u2029", "\v", "\fx")
		}
		return strings.Join(w, " ")
	case 3:
		return rich(c, 1, 60, "")
	case 4:
		return mon.Pick(c, ":", "::", "a: b", "Content-Length: 7", "\"a  b\"", "INVITE sip:a@b SIP/2.0", "a\tb", ";", ",")
	}
	return strings.TrimSpace(text(c, 1, mon.Pick(c, 10, 10, 10, 200, 200, 1200, 1200, mon.Pick(c, 1200, 4200, 9000)), token+" ,;:"))
}

// newMessage returns a message without content length.
func newMessage(c *mon.C) *message {
	m := &message{resp: c.P(45), version: mon.Pick(c, 2, 2, 2, 1), parsed: map[string]bool{}, short: map[string]bool{}, nl: mon.Pick(c, "\r\n", "\r\n", "\n")}
	if m.resp {
		m.code = c.Range(100, 699)
		if c.P(50) {
			m.code = phraseCodes[c.N(len(phraseCodes))]
		}
		m.reason = mon.Pick(c, phrases[m.code], "OK", "", "Not Here Now", rich(c, 1, 30, ""))
	} else {
		m.method = methods[c.N(len(methods))]
		m.uri = newURI(c)
		m.uriText = m.uri.core() + paramText(c, m.uri.args, false)
	}
	if c.P(85) {
		m.parsed["from"], m.from = true, newAddress(c)
		m.add("from", m.from.address(c))
	}
	if c.P(85) {
		m.parsed["to"], m.to = true, newAddress(c)
		m.add("to", m.to.address(c))
	}
	if c.P(50) {
		m.parsed["contact"], m.contact = true, newAddress(c)
		m.add("contact", m.contact.address(c))
	}
	if c.P(85) {
		m.parsed["cseq"], m.cseq = true, newCseq(c)
		m.add("cseq", m.cseq.text(c))
	}
	if c.P(85) {
		m.parsed["via"], m.via = true, newVia(c)
		m.add("via", m.via.text(c))
		for c.P(30) {
			m.add("via", newVia(c).text(c))
		}
	}
	for n := c.N(mon.Pick(c, 3, 8, 20)); n > 0; n-- {
		name := plainNames[c.N(len(plainNames))]
		if c.P(20) {
			name = strings.ToLower(text(c, 2, 14, letters+digits+"-_!%*+`'~."))
			if _, ok := compact[name]; ok || name == "cseq" || strings.HasPrefix(name, "sip") {
				name = "x" + name
			}
		}
		m.add(name, headerValue(c))
	}
	if c.N(400) == 0 { // very many values or names
		n := mon.Pick(c, 33, 64, 65, 100, 128, 129, 200, 256, 257, 300, 1000, 1025, 3000)
		name := mon.Pick(c, "via", "route", "record-route", "x-many", "")
		for i := 0; i < n; i++ {
			if name == "" && i < 400 {
				m.add(fmt.Sprintf("x-%d", i), text(c, 0, 6, token))
			} else if name != "" {
				m.add(name, text(c, 0, 6, token))
			}
		}
		if name == "via" && !m.parsed["via"] {
			m.parsed["via"], m.via = true, newVia(c)
			m.fields = append([]field{{"via", m.via.text(c)}}, m.fields...)
		}
	}
	if c.N(500) == 0 { // a line that ends around the end of a read buffer or count
		n := mon.Pick(c, 4096, 4096, 8192, 16384, 65536, 65536) - c.Range(4, 18)
		m.add("x-long", strings.Repeat("x", n))
	}
	// any order, keeping that of the first via, which is the parsed one
	for i := len(m.fields) - 1; i > 0; i-- {
		k := c.N(i + 1)
		if m.fields[i].name == m.fields[k].name || m.fields[i].name != "via" && m.fields[k].name != "via" {
			if m.fields[i].name != "via" {
				m.fields[i], m.fields[k] = m.fields[k], m.fields[i]
			}
		}
	}
	for _, long := range longNames {
		if c.P(25) {
			m.short[long] = true
		}
	}
	m.mixed = c.P(25)
	return m
}

func anyCase(c *mon.C, s string) string {
	switch c.N(4) {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	case 2:
		p := strings.Split(s, "-")
		for i := range p {
			if p[i] != "" {
				p[i] = strings.ToUpper(p[i][:1]) + p[i][1:]
			}
		}
		return strings.Join(p, "-")
	}
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' && c.P(50) {
			b[i] -= 32
		}
	}
	return string(b)
}

// startLine writes the start line.
func (m *message) startLine(c *mon.C) string {
	v := anyCase(c, fmt.Sprintf("sip/%d.0", m.version))
	if m.resp {
		return fmt.Sprintf("%s %d %s", v, m.code, m.reason)
	}
	return anyCase(c, strings.ToLower(m.method)) + " " + m.uriText + " " + v
}

// build writes the message with a content length of n; end of the headers is
// left open when open is set.
func (m *message) build(c *mon.C, n string, open bool) {
	m.cl = n
	fs := append([]field(nil), m.fields...)
	if n != "-" {
		k := c.N(len(fs) + 1)
		fs = append(fs[:k], append([]field{{"content-length", n}}, fs[k:]...)...)
	}
	var b strings.Builder
	b.WriteString(m.startLine(c) + m.nl)
	for _, f := range fs {
		name := f.name
		if m.short[name] && (!m.mixed || c.P(50)) {
			name = compact[name]
		}
		b.WriteString(anyCase(c, name))
		b.WriteString(mon.Pick(c, "", "", "", " ", "\t", "  "))
		b.WriteByte(':')
		b.WriteString(mon.Pick(c, " ", " ", " ", "", "\t", "   "))
		if c.P(3) && f.val != "" {
			b.WriteString(mon.Pick(c, "", "", " ") + m.nl + " ")
		}
		b.WriteString(fold(c, f.val, m.nl))
		if c.P(10) {
			b.WriteString(mon.Pick(c, " ", "\t", "  \t"))
		}
		if c.P(2) {
			b.WriteString(m.nl + mon.Pick(c, " ", "\t"))
		}
		b.WriteString(m.nl)
	}
	m.head = []byte(b.String())
	if open {
		if c.P(50) {
			m.head = m.head[:len(m.head)-len(m.nl)]
		}
		m.wire = append([]byte(nil), m.head...)
		return
	}
	m.wire = append(append(append([]byte(nil), m.head...), m.nl...), m.body...)
}

// fold breaks a value over several lines at single spaces.
func fold(c *mon.C, v, nl string) string {
	if !c.P(30) {
		return v
	}
	var b strings.Builder
	for i := 0; i < len(v); i++ {
		if v[i] == ' ' && i > 0 && i+1 < len(v) && !white(v[i-1]) && !white(v[i+1]) && c.P(40) {
			if c.P(15) {
				b.WriteString(mon.Pick(c, " ", "\t", "  "))
			}
			b.WriteString(nl)
			b.WriteString(mon.Pick(c, " ", "\t", "    ", " \t "))
			continue
		}
		b.WriteByte(v[i])
	}
	return b.String()
}

func white(b byte) bool { return b == ' ' || b == '\t' }

// newBody returns a body, often one that looks like more messages.
func newBody(c *mon.C) []byte {
	if c.N(400) == 0 {
		return c.Bytes(mon.Pick(c, 65535, 65536, 65537, 70000, 131072, 300000))
	}
	switch c.N(6) {
	case 0:
		return nil
	case 1:
		return []byte(mon.Pick(c, "\r\n", "\n", "\r\n\r\n", "BYE sip:a@b SIP/2.0\r\nContent-Length: 0\r\n\r\n", "Content-Length: 3\r\n\r\nabc", " folded\r\n", "v=0\r\no=- 0 0 IN IP4 1.2.3.4\r\n"))
	case 2:
		return c.Bytes(mon.Pick(c, 4095, 4096, 4097, 8192, 20000))
	}
	return c.Bytes(c.Size(3000, 1, 2, 511, 512, 513))
}

// phrases is the reason phrase of every supported status, from RFC 3261
// (439 and 440 and the like are not supported).
var phrases = map[int]string{
	100: "Trying", 180: "Ringing", 181: "Call Is Being Forwarded", 182: "Queued", 183: "Session Progress",
	200: "OK",
	300: "Multiple Choices", 301: "Moved Permanently", 302: "Moved Temporarily", 305: "Use Proxy", 380: "Alternative Service",
	400: "Bad Request", 401: "Unauthorized", 402: "Payment Required", 403: "Forbidden", 404: "Not Found", 405: "Method Not Allowed",
	406: "Not Acceptable", 407: "Proxy Authentication Required", 408: "Request Timeout", 410: "Gone", 413: "Request Entity Too Large",
	414: "Request-URI Too Long", 415: "Unsupported Media Type", 416: "Unsupported URI Scheme", 420: "Bad Extension", 421: "Extension Required",
	423: "Interval Too Brief", 480: "Temporarily Unavailable", 481: "Call/Transaction Does Not Exist", 482: "Loop Detected", 483: "Too Many Hops",
	484: "Address Incomplete", 485: "Ambiguous", 486: "Busy Here", 487: "Request Terminated", 488: "Not Acceptable Here", 491: "Request Pending", 493: "Undecipherable",
	500: "Server Internal Error", 501: "Not Implemented", 502: "Bad Gateway", 503: "Service Unavailable", 504: "Server Time-out", 505: "Version Not Supported", 513: "Message Too Large",
	600: "Busy Everywhere", 603: "Decline", 604: "Does Not Exist Anywhere", 606: "Not Acceptable",
}

var phraseCodes = func() (k []int) {
	for i := 0; i < 1000; i++ {
		if phrases[i] != "" {
			k = append(k, i)
		}
	}
	return
}()
