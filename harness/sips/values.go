package sips

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/moggle-mog/goav/sips"

	"verif/mon"
)

func sameArgs(got sips.Args, want []pair) string {
	w := pairMap(want)
	if len(got) != len(w) {
		return fmt.Sprintf("parameters %q, want %q", got, w)
	}
	for k, v := range w {
		if g, ok := got[k]; !ok || g != v {
			return fmt.Sprintf("parameter %q is %q (present: %v), want %q", k, g, ok, v)
		}
	}
	return ""
}

func sameUser(got *sips.SIPUser, u uri) string {
	if got == nil {
		return "no address"
	}
	g := uri{scheme: got.URIType, name: got.Name, user: got.User, host: got.Host, port: got.Port}
	w := u
	w.args = nil
	if g.scheme != w.scheme || g.name != w.name || g.user != w.user || g.host != w.host || g.port != w.port {
		return fmt.Sprintf("scheme, name, user, host, port %q %q %q %q %q, want %q %q %q %q %q", g.scheme, g.name, g.user, g.host, g.port, w.scheme, w.name, w.user, w.host, w.port)
	}
	return sameArgs(got.Args, u.args)
}

func sameRequest(got *sips.SIPRequest, u uri) string {
	if got == nil {
		return "no request URI"
	}
	if got.URIType != u.scheme || got.User != u.user || got.Host != u.host || got.Port != u.port {
		return fmt.Sprintf("scheme, user, host, port %q %q %q %q, want %q %q %q %q", got.URIType, got.User, got.Host, got.Port, u.scheme, u.user, u.host, u.port)
	}
	return sameArgs(got.Args, u.args)
}

func sameVia(got *sips.SIPVia, v via) string {
	if got == nil {
		return "no via"
	}
	if got.Trans != v.trans || got.Host != v.host || got.Port != v.port {
		return fmt.Sprintf("transport, host, port %q %q %q, want %q %q %q", got.Trans, got.Host, got.Port, v.trans, v.host, v.port)
	}
	return sameArgs(got.Args, v.args)
}

func sameCseq(got *sips.SIPCseq, q cseq) string {
	if got == nil {
		return "no cseq"
	}
	if got.ID != q.id || got.Method != q.method {
		return fmt.Sprintf("number, method %q %q, want %q %q", got.ID, got.Method, q.id, q.method)
	}
	return ""
}

func sipArgs(ps []pair) sips.Args {
	a := sips.NewArgs()
	for _, p := range ps {
		a.Set(p.key, p.val)
	}
	return a
}

func sipUser(u uri) *sips.SIPUser {
	s := sips.NewSIPUser("")
	s.URIType, s.Name, s.User, s.Host, s.Port, s.Args = u.scheme, u.name, u.user, u.host, u.port, sipArgs(u.args)
	return s
}

func sipRequest(u uri) *sips.SIPRequest {
	s := sips.NewSIPRequest("")
	s.URIType, s.User, s.Host, s.Port, s.Args = u.scheme, u.user, u.host, u.port, sipArgs(u.args)
	return s
}

func sipVia(v via) *sips.SIPVia {
	s := sips.NewSIPVia("")
	s.Trans, s.Host, s.Port, s.Args = v.trans, v.host, v.port, sipArgs(v.args)
	return s
}

// The readers below know the standard notations and nothing of the library.

func readParams(s string) ([]pair, string) {
	var ps []pair
	for s != "" {
		s = strings.TrimLeft(s, " ")
		if s == "" || s[0] != ';' {
			return nil, fmt.Sprintf("%q where a parameter should start", s)
		}
		s = strings.TrimLeft(s[1:], " ")
		n := strings.IndexByte(s, ';')
		if n < 0 {
			n = len(s)
		}
		one := strings.TrimRight(s[:n], " ")
		s = s[n:]
		if one == "" || strings.ContainsAny(one, " <>\"") {
			return nil, fmt.Sprintf("parameter %q", one)
		}
		p := pair{key: one}
		if i := strings.IndexByte(one, '='); i >= 0 {
			p = pair{one[:i], one[i+1:]}
			if p.key == "" || p.val == "" {
				return nil, fmt.Sprintf("parameter %q", one)
			}
		}
		if hasKey(ps, p.key) {
			return nil, fmt.Sprintf("two parameters %q", p.key)
		}
		ps = append(ps, p)
	}
	return ps, ""
}

func readHost(s string) (host, port, bad string) {
	end := 0
	if strings.HasPrefix(s, "[") {
		end = strings.IndexByte(s, ']')
		if end < 0 || len(s) > end+1 && s[end+1] != ':' {
			return "", "", fmt.Sprintf("host %q", s)
		}
	}
	if i := strings.LastIndexByte(s, ':'); i > end {
		if n, err := strconv.ParseUint(s[i+1:], 10, 16); err != nil || n > 65535 {
			return "", "", fmt.Sprintf("port %q", s[i+1:])
		}
		s, port = s[:i], s[i+1:]
	}
	if s == "" || strings.ContainsAny(s, " @<>\"") {
		return "", "", fmt.Sprintf("host %q", s)
	}
	return s, port, ""
}

func readURI(s string) (u uri, bad string) {
	i := strings.IndexByte(s, ':')
	if i < 0 || s[:i] != "sip" && s[:i] != "sips" && s[:i] != "tel" {
		return u, fmt.Sprintf("scheme of %q", s)
	}
	u.scheme, s = s[:i], s[i+1:]
	rest := ""
	from := 0
	if u.scheme != "tel" { // the user part may have semicolons
		from = strings.IndexByte(s, '@') + 1
	}
	if i := strings.IndexByte(s[from:], ';'); i >= 0 {
		s, rest = s[:from+i], s[from+i:]
	}
	if u.args, bad = readParams(rest); bad != "" {
		return u, bad
	}
	if u.scheme == "tel" {
		if u.user = s; s == "" || strings.ContainsAny(s, " @<>:\"") {
			return u, fmt.Sprintf("number %q", s)
		}
		return u, ""
	}
	if i := strings.IndexByte(s, '@'); i >= 0 {
		if u.user, s = s[:i], s[i+1:]; u.user == "" || strings.ContainsAny(u.user, " <>\"") {
			return u, fmt.Sprintf("user %q", u.user)
		}
	}
	u.host, u.port, bad = readHost(s)
	return u, bad
}

func readAddress(s string) (u uri, bad string) {
	name, quoted := []byte(nil), strings.HasPrefix(s, `"`)
	if quoted {
		i := 1
		for ; i < len(s) && s[i] != '"'; i++ {
			if s[i] == '\\' {
				i++
			}
			if i < len(s) {
				name = append(name, s[i])
			}
		}
		if i >= len(s) {
			return u, "the name has no closing quote"
		}
		s = strings.TrimLeft(s[i+1:], " ")
		if !strings.HasPrefix(s, "<") {
			return u, "no '<' behind the name"
		}
	}
	i := strings.IndexByte(s, '<')
	if i < 0 {
		// without brackets all parameters belong to the header
		return readURI(s)
	}
	if !quoted {
		name = []byte(strings.TrimRight(s[:i], " "))
		for _, b := range name {
			if strings.IndexByte(token+" ", b) < 0 {
				return u, fmt.Sprintf("the unquoted name %q", name)
			}
		}
	}
	k := strings.IndexByte(s, '>')
	if k < i {
		return u, "no '>'"
	}
	if u, bad = readURI(s[i+1 : k]); bad != "" {
		return u, bad
	}
	u.name = string(name)
	ps, bad := readParams(s[k+1:])
	u.args = append(u.args, ps...)
	return u, bad
}

func readVia(s string) (v via, bad string) {
	i := strings.IndexByte(s, ' ')
	if i < 0 || !strings.HasPrefix(s, "SIP/2.0/") {
		return v, fmt.Sprintf("protocol of %q", s)
	}
	v.trans = s[8:i]
	s = strings.TrimLeft(s[i:], " ")
	rest := ""
	if i := strings.IndexByte(s, ';'); i >= 0 {
		s, rest = s[:i], s[i:]
	}
	if v.host, v.port, bad = readHost(s); bad != "" {
		return v, bad
	}
	v.args, bad = readParams(rest)
	return v, bad
}

func sameParts(got, want uri, gotArgs, wantArgs []pair) string {
	got.args, want.args, want.shown = nil, nil, ""
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		return fmt.Sprintf("it reads as %+q, want %+q", got, want)
	}
	return sameArgs(sipArgs(gotArgs), wantArgs)
}

func standardURI(s string, u uri) string {
	g, bad := readURI(s)
	if bad != "" {
		return bad
	}
	u.name = ""
	return sameParts(g, u, g.args, u.args)
}

func standardAddress(s string, u uri) string {
	g, bad := readAddress(s)
	if bad != "" {
		return bad
	}
	return sameParts(g, u, g.args, u.args)
}

func standardVia(s string, v via) string {
	g, bad := readVia(s)
	if bad != "" {
		return bad
	}
	return sameParts(uri{scheme: g.trans, host: g.host, port: g.port}, uri{scheme: v.trans, host: v.host, port: v.port}, g.args, v.args)
}

func standardCseq(s string, q cseq) string {
	if i := strings.IndexByte(s, ' '); i < 0 || s[:i] != q.id || strings.TrimLeft(s[i:], " ") != q.method {
		return fmt.Sprintf("it does not read as number %q and method %q", q.id, q.method)
	}
	return ""
}

// rt parses text, compares, prints, parses again and compares again.
func rt(c *mon.C, kind, text string, standard func(string) string, parse func(string) (same string, print func() string, src func() string)) {
	same, print, src := parse(text)
	if same != "" {
		c.Fail("%s %q parsed: %s", kind, text, same)
	}
	if src() != text {
		c.Fail("%s %q parsed: its source is %q", kind, text, src())
	}
	out := print()
	if d := standard(out); d != "" {
		c.Fail("%s %q, written as %q: %s", kind, text, out, d)
	}
	same, again, src2 := parse(out)
	if same != "" {
		c.Fail("%s %q, written as %q and parsed: %s", kind, text, out, same)
	}
	if src() != out || src2() != out {
		c.Fail("%s %q, written as %q: sources of the struct and of the parsed copy are %q and %q", kind, text, out, src(), src2())
	}
	if same, _, _ = parse(again()); same != "" {
		c.Fail("%s %q, written twice: %s", kind, text, same)
	}
	c.Event(kind + " round trips")
}

func values(c *mon.C) {
	switch c.N(4) {
	case 0:
		u := newURI(c)
		text := u.core() + paramText(c, u.args, false)
		c.Note("URI %q", text)
		rt(c, "URI", text, func(s string) string { return standardURI(s, u) }, func(s string) (string, func() string, func() string) {
			r := sips.NewSIPRequest(s)
			return sameRequest(r, u), r.String, func() string { return r.Src }
		})
		// made from fields
		r := sipRequest(u)
		if d := sameUser(r.ToUser(), u); d != "" {
			c.Fail("URI with %+v copied to an address before it was written: %s", u, d)
		}
		// one value parsed, every field replaced, copied
		o := sips.NewSIPRequest(func() string { v := newURI(c); return v.core() + paramText(c, v.args, false) }())
		o.URIType, o.User, o.Host, o.Port, o.Args = r.URIType, r.User, r.Host, r.Port, replaceArgs(c, o.Args, u.args)
		if d := sameUser(o.ToUser(), u); d != "" {
			c.Fail("URI %q changed to %+v and copied to an address: %s", o.Src, u, d)
		}
		if d := standardAddress(o.ToUser().String(), u); d != "" {
			c.Fail("URI %q changed to %+v, copied to an address and written as %q: %s", o.Src, u, o.ToUser().String(), d)
		}
		if d := standardURI(sipRequest(u).String(), u); d != "" {
			c.Fail("URI with %+v written as %q: %s", u, sipRequest(u).String(), d)
		}
		if d := sameUser(sips.NewSIPUser(o.ToUser().String()), u); d != "" {
			c.Fail("URI %q changed to %+v, copied to an address and written: %s", o.Src, u, d)
		}
		if d := sameRequest(sips.NewSIPRequest(o.String()), u); d != "" {
			c.Fail("URI changed to %+v and written as %q: %s", u, o.Src, d)
		}
		if d := sameRequest(sips.NewSIPRequest(string(r.Bytes())), u); d != "" {
			c.Fail("URI with %+v written as %q and parsed: %s", u, r.String(), d)
		}
		a := r.ToUser()
		if d := sameUser(a, u); d != "" || a.Src != r.Src {
			c.Fail("URI %q copied to an address: %s (source %q, want %q)", text, d, a.Src, r.Src)
		}
		if d := sameUser(sips.NewSIPUser(a.String()), u); d != "" {
			c.Fail("URI %q copied to an address, written as %q: %s", text, a.Src, d)
		}
		b := a.ToRequest()
		if d := sameRequest(b, u); d != "" || b.Src != a.Src {
			c.Fail("URI %q copied to an address and back: %s (source %q, want %q)", text, d, b.Src, a.Src)
		}
		c.Event("copies between forms")
		c.Shape("uri", u.scheme, len(u.user), u.host != "", u.port != "", len(u.args))
		c.Sample("URI %q", text)
	case 1:
		u := newAddress(c)
		text := u.address(c)
		c.Note("address %q", text)
		rt(c, "address", text, func(s string) string { return standardAddress(s, u) }, func(s string) (string, func() string, func() string) {
			r := sips.NewSIPUser(s)
			return sameUser(r, u), r.String, func() string { return r.Src }
		})
		r := sipUser(u)
		if d := sameUser(sips.NewSIPUser(string(r.Bytes())), u); d != "" {
			c.Fail("address with %+v written as %q and parsed: %s", u, r.String(), d)
		}
		if d := sameRequest(sipUser(u).ToRequest(), u); d != "" {
			c.Fail("address with %+v copied to a URI before it was written: %s", u, d)
		}
		if d := standardAddress(string(sipUser(u).Bytes()), u); d != "" {
			c.Fail("address with %+v written as %q: %s", u, sipUser(u).Bytes(), d)
		}
		if d := standardURI(r.ToRequest().String(), u); d != "" {
			c.Fail("address with %+v copied to a URI and written as %q: %s", u, r.ToRequest().String(), d)
		}
		quotedParams(c, u)
		v := newAddress(c)
		o := sips.NewSIPUser(v.address(c))
		o.URIType, o.Name, o.User, o.Host, o.Port, o.Args = r.URIType, r.Name, r.User, r.Host, r.Port, replaceArgs(c, o.Args, u.args)
		if d := sameRequest(o.ToRequest(), u); d != "" {
			c.Fail("address %q changed to %+v and copied to a URI: %s", o.Src, u, d)
		}
		if d := sameUser(sips.NewSIPUser(o.String()), u); d != "" {
			c.Fail("address changed to %+v and written as %q: %s", u, o.Src, d)
		}
		q := r.ToRequest()
		if d := sameRequest(q, u); d != "" || q.Src != r.Src {
			c.Fail("address %q copied to a URI: %s (source %q, want %q)", text, d, q.Src, r.Src)
		}
		c.Event("copies between forms")
		c.Event("address with " + nameKind(u.name))
		c.Shape("addr", u.scheme, u.name, len(u.user), u.host != "", u.port != "", len(u.args))
		c.Sample("address %q", text)
	case 2:
		v := newVia(c)
		text := v.text(c)
		c.Note("via %q", text)
		rt(c, "Via", text, func(s string) string { return standardVia(s, v) }, func(s string) (string, func() string, func() string) {
			r := sips.NewSIPVia(s)
			return sameVia(r, v), r.String, func() string { return r.Src }
		})
		r := sipVia(v)
		if d := sameVia(sips.NewSIPVia(string(r.Bytes())), v); d != "" {
			c.Fail("via with %+v written as %q and parsed: %s", v, r.String(), d)
		}
		o := sips.NewSIPVia(newVia(c).text(c))
		o.Trans, o.Host, o.Port, o.Args = v.trans, v.host, v.port, replaceArgs(c, o.Args, v.args)
		if d := sameVia(sips.NewSIPVia(o.String()), v); d != "" {
			c.Fail("via changed to %+v and written as %q: %s", v, o.Src, d)
		}
		c.Shape("via", v.trans, len(v.host), v.port != "", len(v.args))
		c.Sample("via %q", text)
	default:
		q := newCseq(c)
		text := q.text(c)
		c.Note("cseq %q", text)
		rt(c, "CSeq", text, func(s string) string { return standardCseq(s, q) }, func(s string) (string, func() string, func() string) {
			r := sips.NewSIPCseq(s)
			return sameCseq(r, q), r.String, func() string { return r.Src }
		})
		o := sips.NewSIPCseq(newCseq(c).text(c))
		o.ID, o.Method = q.id, q.method
		if d := sameCseq(sips.NewSIPCseq(o.String()), q); d != "" {
			c.Fail("cseq changed to %+v and written as %q: %s", q, o.Src, d)
		}
		c.Shape("cseq", len(q.id), q.method)
		c.Sample("cseq %q", text)
	}
}

// quotedParams gives the parameters behind an address quoted values, which
// may hold anything.
func quotedParams(c *mon.C, u uri) {
	if c.P(70) {
		return
	}
	if c.P(50) || hasKey(u.args, "q1") || hasKey(u.args, "q2") || hasKey(u.args, "q3") {
		u.args = nil
	}
	u.args = append([]pair(nil), u.args...)
	text := u.address(c)
	for i := c.Range(1, 3); i > 0; i-- {
		p := pair{key: fmt.Sprintf("q%d", i), val: quotedValue(c)}
		u.args = append(u.args, p)
		text += mon.Pick(c, ";", " ;", "; ") + p.key + `="`
		for _, r := range []byte(p.val) {
			if r == '"' || r == '\\' {
				text += `\`
			}
			text += string([]byte{r})
		}
		text += `"`
	}
	if d := sameUser(sips.NewSIPUser(text), u); d != "" {
		c.Fail("address %q: %s", text, d)
	}
	c.Event("addresses with quoted parameters")
}

// replaceArgs turns the parameters of a parsed value into want, either in the
// same map or in a new one.
func replaceArgs(c *mon.C, a sips.Args, want []pair) sips.Args {
	if c.P(30) {
		return sipArgs(want)
	}
	w := pairMap(want)
	for k := range a {
		if _, ok := w[k]; !ok {
			a.Del(k)
		}
	}
	for k, v := range w {
		a.Set(k, v)
	}
	return a
}

func nameKind(n string) string {
	switch {
	case n == "":
		return "no name"
	case strings.ContainsAny(n, `"\`):
		return "a name to escape"
	case strings.ContainsAny(n, "<>;,:@"):
		return "punctuation in the name"
	}
	return "a plain name"
}

// lists is the S05 monitor.
func lists(c *mon.C) {
	// free form: quoted and unquoted values, any separators
	n := c.N(mon.Pick(c, 2, 5, 12, 40))
	if c.N(300) == 0 {
		n = mon.Pick(c, 64, 65, 128, 129, 256, 257, 1000)
	}
	sep := mon.Pick(c, ",", ";", "\n", "")
	var ps []pair
	var b strings.Builder
	space := func() {
		if c.P(30) {
			b.WriteString(mon.Pick(c, " ", "  ", "\t", "\r"))
		}
	}
	eq := func() { // white space may surround the '='
		if c.P(5) {
			b.WriteString(mon.Pick(c, " =", "= ", "  = ", "\t=", "=\t "))
		} else {
			b.WriteByte('=')
		}
	}
	var flags []string
	quotedSep := false
	for i := 0; i < n; i++ {
		k := mon.Pick(c, "username", "realm", "nonce", "uri", "response", "opaque", "qop", "nc", text(c, 1, 10, token), rich(c, 1, 8, "\"\\,;=\n"))
		if hasKey(ps, k) {
			continue
		}
		if len(ps) > 0 {
			b.WriteString(oneSep(c, sep))
		}
		for c.P(5) { // empty elements
			space()
			b.WriteString(oneSep(c, sep))
			flags = append(flags, "empty")
		}
		space()
		p := pair{key: k}
		b.WriteString(k)
		switch c.N(5) {
		case 0:
			flags = append(flags, "bare")
		case 1:
			eq()
			flags = append(flags, "nil")
		case 2:
			p.val = strings.Trim(rich(c, 1, 20, "\"\\,;\n"), " ")
			if c.P(20) {
				p.val = text(c, 1, 20, "\\:=/@<>[]"+letters) // a backslash outside quotes is an ordinary byte
			}
			eq()
			b.WriteString(p.val)
			flags = append(flags, "plain")
		default:
			p.val = quotedValue(c)
			eq()
			b.WriteByte('"')
			for _, r := range []byte(p.val) {
				if r == '"' || r == '\\' || c.P(4) && (r < 0x80 || r >= 0xc0) {
					b.WriteByte('\\')
				}
				if r == ',' || r == ';' || r == '\n' {
					quotedSep = true
				}
				b.WriteByte(r)
			}
			b.WriteByte('"')
			flags = append(flags, "quoted")
		}
		ps = append(ps, p)
		space()
	}
	for c.P(10) {
		b.WriteString(oneSep(c, sep))
		space()
	}
	text := b.String()
	c.Note("list %q", text)
	check := func(what string, got sips.Args) {
		if d := sameArgs(got, ps); d != "" {
			c.Fail("%s of %q: %s", what, text, d)
		}
		for _, p := range ps {
			if got.Get(p.key) != p.val {
				c.Fail("%s of %q: Get(%q) is %q, want %q", what, text, p.key, got.Get(p.key), p.val)
			}
		}
		if got.Get("no such\x01key") != "" {
			c.Fail("%s: an absent key has a value", what)
		}
	}
	check("ParseArgsPairs", sips.ParseArgsPairs(text))
	check("ParseArgs", sips.ParseArgs(";"+text))
	check("ParseArgs behind a value", sips.ParseArgs(mon.Pick(c, "", "application/sdp", "a,b=c", "x ")+";"+text))
	if g := sips.ParseArgs(strings.NewReplacer(";", "", "\n", "").Replace(text)); len(g) != 0 {
		c.Fail("ParseArgs of a value without parameters: %q", g)
	}
	digest := mon.Pick(c, "Digest ", "digest ", "DIGEST ", "dIgEsT ") + mon.Pick(c, "", " ", "   ") + text
	if strings.TrimSpace(text) != "" {
		au := sips.NewSIPAuth(digest)
		check("NewSIPAuth", au.Args)
		if au.Src != digest {
			c.Fail("NewSIPAuth: source %q, want %q", au.Src, digest)
		}
		h := sips.NewSIPHeader()
		h.SetFirstHeader(anyCase(c, "authorization"), digest)
		check("GetAuthorization", h.GetAuthorization().Args)
		if !strings.ContainsAny(digest, "\r\n") {
			m := sips.NewSIP()
			if err := m.ParseBytes([]byte("OPTIONS sip:a@b SIP/2.0\r\n" + anyCase(c, "authorization") + ": " + digest + "\r\nContent-Length: 0\r\n\r\n")); err != nil {
				c.Fail("a request with %q: %v", digest, err)
			}
			check("GetAuthorization of a request", m.Headers.GetAuthorization().Args)
			c.Event("digests of requests")
		}
		c.Event("digests")
	}
	c.Event("lists")
	if quotedSep {
		c.Event("separators within quotes")
	}
	for _, f := range flags {
		c.Event("elements " + f)
	}
	// printed forms, each with values valid in it
	form := c.N(3)
	var pv []pair
	a := sips.NewArgs()
	m := c.Steps(0, 7)
	if c.N(3000) == 0 {
		m = c.Range(300, 1200)
	}
	for ; m > 0; m-- {
		p := pair{key: rich(c, 1, 8, "\"\\,;=\n")}
		switch {
		case c.P(20):
		case form == 1:
			p.val = rich(c, 1, 20, "")
			if c.P(20) {
				p.val = " " + p.val + "  "
			}
		default:
			p.val = rich(c, 1, 20, "\",;")
		}
		if hasKey(pv, p.key) {
			continue
		}
		pv = append(pv, p)
		a.Set(p.key, p.val)
		if c.P(10) { // Set replaces, Del removes
			a.Set(p.key, "other")
			a.Del(p.key)
			a.Del("absent")
			a.Set(p.key, p.val)
		}
	}
	out, name := "", ""
	var back sips.Args
	switch form {
	case 0:
		out, name = a.SemicolonString(), "SemicolonString"
		back = sips.ParseArgs(out)
	case 1:
		out, name = a.CommaString(), "CommaString"
		back = sips.ParseArgsPairs(out)
	default:
		out, name = a.CRLFString(), "CRLFString"
		back = sips.ParseArgsPairs(out)
	}
	if d := sameArgs(back, pv); d != "" {
		c.Fail("%s of %q is %q, which parses to different parameters: %s", name, pairMap(pv), out, d)
	}
	if n := elements(out, form); n != len(pv) {
		c.Fail("%s of %q is %q, with %d elements", name, pairMap(pv), out, n)
	}
	if d := sameArgs(a, pv); d != "" {
		c.Fail("%s changed the parameters: %s", name, d)
	}
	c.Event(name + " round trips")
	sort.Strings(flags)
	c.Shape(form, len(pv), sep, strings.Join(flags, ""))
	c.Sample("list %q", text)
}

// elements counts the elements of a printed list, empty ones included.
func elements(out string, form int) int {
	if out == "" {
		return 0
	}
	switch form {
	case 0: // each behind its semicolon
		return strings.Count(out, ";")
	case 2: // each ended by CRLF, or separated by it
		return strings.Count(strings.TrimSuffix(out, "\r\n"), "\r\n") + 1
	}
	n, quoted := 1, false
	for i := 0; i < len(out); i++ {
		switch {
		case quoted && out[i] == '\\':
			i++
		case out[i] == '"':
			quoted = !quoted
		case out[i] == ',' && !quoted:
			n++
		}
	}
	return n
}

func oneSep(c *mon.C, s string) string {
	if s == "" {
		return mon.Pick(c, ",", ";", "\n", "\r\n")
	}
	return s
}

func quotedValue(c *mon.C) string {
	switch c.N(4) {
	case 0:
		return mon.Pick(c, "", "\"", "\\", "\\\\", "a\"b", ",", ";", "a,b;c=d", "=", "\"\"", "sip:a@b;x=y", "a\nb", " x ", "\\\"", "auth,auth-int")
	case 1:
		return text(c, 1, 40, "0123456789abcdef")
	}
	return rich(c, 0, 20, "")
}

// lookalikes are runes that Unicode case mapping takes for ASCII letters.
var lookalikes = map[rune]string{'I': "ıİ", 'S': "ſ", 'K': "\u212a"}

// tables is the S07 monitor: the first cases are exhaustive.
func tables(c *mon.C) {
	k, ok := c.Directed()
	if !ok {
		k = 3
	}
	switch k {
	case 0: // statuses
		for code := -1100; code <= 70000; code++ {
			s := sips.SIPStatus(code)
			if s.Text() != phrases[code] {
				c.Fail("status %d has phrase %q, want %q", code, s.Text(), phrases[code])
			}
			if s.Int() != code || s.String() != strconv.Itoa(code) {
				c.Fail("status %d prints as %q and is %d", code, s.String(), s.Int())
			}
			c.Event("status codes")
		}
		for name, v := range statusNames {
			if int(name) != v {
				c.Fail("the constant of status %d has the value %d", v, int(name))
			}
			c.Event("status constants")
		}
	case 1: // methods
		for i, m := range methods {
			code := sips.SIPMethod(i + 1)
			if methodConst[i] != code {
				c.Fail("the constant of %s is %d", m, methodConst[i])
			}
			if code.String() != m {
				c.Fail("method %d prints as %q, want %q", i+1, code.String(), m)
			}
			// every letter case
			for mask := 0; mask < 1<<len(m); mask++ {
				b := []byte(m)
				for j := range b {
					if mask>>j&1 == 1 {
						b[j] += 32
					}
				}
				got, err := sips.GetSIPMethod(string(b))
				if err != nil || got != code {
					c.Fail("GetSIPMethod(%q) = %d, %v, want %d", b, got, err, code)
				}
				c.Event("method texts accepted")
			}
			for _, bad := range near(m) {
				if got, err := sips.GetSIPMethod(bad); err == nil {
					c.Fail("GetSIPMethod(%q) accepted as %d", bad, got)
				}
				c.Event("method texts refused")
			}
		}
		for i := 0; i < 65536; i++ {
			if i >= 1 && i <= len(methods) {
				continue
			}
			s := sips.SIPMethod(i).String()
			if _, err := sips.GetSIPMethod(s); err == nil {
				c.Fail("unknown method %d prints as %q, which is a method", i, s)
			}
		}
		// all short texts, as text and as version
		const set = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/. "
		var short func(p string)
		short = func(p string) {
			known := false
			for _, m := range methods {
				known = known || m == p
			}
			if got, err := sips.GetSIPMethod(p); (err == nil) != known {
				c.Fail("GetSIPMethod(%q) = %d, %v", p, got, err)
			}
			if got, err := sips.GetSIPVersion(p); err == nil {
				c.Fail("GetSIPVersion(%q) accepted as %d", p, got)
			}
			c.Event("short texts")
			if len(p) < 3 {
				for i := range set {
					short(p + set[i:i+1])
				}
			}
		}
		short("")
	case 2: // versions
		for i, v := range []string{"SIP/1.0", "SIP/2.0"} {
			code := sips.SIPVersion(i + 1)
			if code.String() != v {
				c.Fail("version %d prints as %q", i+1, code.String())
			}
			for mask := 0; mask < 8; mask++ {
				b := []byte(v)
				for j := 0; j < 3; j++ {
					if mask>>j&1 == 1 {
						b[j] += 32
					}
				}
				got, err := sips.GetSIPVersion(string(b))
				if err != nil || got != code {
					c.Fail("GetSIPVersion(%q) = %d, %v, want %d", b, got, err, code)
				}
				c.Event("version texts accepted")
			}
			for _, bad := range near(v) {
				if u := asciiUpper(bad); u == "SIP/1.0" || u == "SIP/2.0" {
					continue
				}
				if got, err := sips.GetSIPVersion(bad); err == nil {
					c.Fail("GetSIPVersion(%q) accepted as %d", bad, got)
				}
				c.Event("version texts refused")
			}
		}
		if sips.SIPVersion1 != 1 || sips.SIPVersion2 != 2 {
			c.Fail("version constants %d and %d", sips.SIPVersion1, sips.SIPVersion2)
		}
		c.Shape(k)
	default: // any other text
		var s string
		switch c.N(4) {
		case 0:
			s = text(c, 0, 12, letters+digits+"/. -")
		case 1:
			s = rich(c, 0, 10, "")
		case 2:
			s = string(c.Bytes(c.N(12)))
		default:
			m := methods[c.N(len(methods))]
			b := []byte(mon.Pick(c, m, "SIP/2.0", "SIP/1.0"))
			b[c.N(len(b))] ^= 1 << c.N(8)
			s = string(b)
		}
		u := asciiUpper(s)
		want := 0
		for i, m := range methods {
			if u == m {
				want = i + 1
			}
		}
		got, err := sips.GetSIPMethod(s)
		if want == 0 && err == nil || want != 0 && (err != nil || int(got) != want) {
			c.Fail("GetSIPMethod(%q) = %d, %v, want %d", s, got, err, want)
		}
		v, err := sips.GetSIPVersion(s)
		ok := u == "SIP/1.0" || u == "SIP/2.0"
		if ok != (err == nil) || ok && v.String() != u {
			c.Fail("GetSIPVersion(%q) = %d, %v", s, v, err)
		}
		c.Event("random texts")
		c.Shape(s)
	}
}

func asciiUpper(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

// near returns texts close to m that are not m in any letter case.
func near(m string) []string {
	out := nearAll(m)
	out = append(out, "", m+" ", " "+m, m+m, m+"\x00", m[1:], m[:len(m)-1], "X"+m, m+"S", m+"\r", "\t"+m)
	for i := range m {
		out = append(out, m[:i]+m[i+1:], m[:i]+"?"+m[i+1:], m[:i]+string(m[i]^0x80)+m[i+1:], m[:i]+string([]byte{m[i] ^ 0x80})+m[i+1:], m[:i]+string([]byte{m[i] ^ 1})+m[i+1:])
		for _, r := range lookalikes[rune(m[i])] {
			out = append(out, m[:i]+string(r)+m[i+1:])
		}
		// full-width letters
		out = append(out, m[:i]+string(rune(m[i])+0xfee0)+m[i+1:])
	}
	return out
}

// nearAll returns every proper prefix and suffix of m and every text that
// differs from m by one inserted or replaced byte, in both letter cases, but
// none that is m in some letter case.
func nearAll(m string) []string {
	var out []string
	put := func(s string) {
		known := false
		for _, k := range append([]string{m}, methods...) {
			known = known || asciiUpper(s) == k
		}
		if !known {
			out = append(out, s)
			if l := strings.ToLower(s); asciiUpper(l) == asciiUpper(s) {
				out = append(out, l)
			}
		}
	}
	for i := 0; i <= len(m); i++ {
		put(m[:i])
		put(m[i:])
		for b := 0; b < 256; b++ {
			put(m[:i] + string([]byte{byte(b)}) + m[i:])
			if i < len(m) {
				put(m[:i] + string([]byte{byte(b)}) + m[i+1:])
			}
		}
	}
	for _, t := range append([]string{"SIP", "SIP/", "SIP/2.0", "SIP/1.0", " ", "\r\n", "\x00"}, methods...) {
		put(m + t)
		put(t + m)
		put(m + " " + t)
	}
	return out
}

var methodConst = []sips.SIPMethod{sips.SIPMethodInvite, sips.SIPMethodAck, sips.SIPMethodBye, sips.SIPMethodCancel, sips.SIPMethodOptions,
	sips.SIPMethodRegister, sips.SIPMethodPrack, sips.SIPMethodSubscribe, sips.SIPMethodNotify, sips.SIPMethodPublish, sips.SIPMethodInfo,
	sips.SIPMethodRefer, sips.SIPMethodMessage, sips.SIPMethodUpdate, sips.SIPMethodPing}

var statusNames = map[sips.SIPStatus]int{
	sips.StatusTrying:                      100,
	sips.StatusRinging:                     180,
	sips.StatusCallIsBeingForwarded:        181,
	sips.StatusQueued:                      182,
	sips.StatusSessionProgress:             183,
	sips.StatusOK:                          200,
	sips.StatusMultipleChoices:             300,
	sips.StatusMovedPermanently:            301,
	sips.StatusMovedTemporarily:            302,
	sips.StatusUseProxy:                    305,
	sips.StatusAlternativeService:          380,
	sips.StatusBadRequest:                  400,
	sips.StatusUnauthorized:                401,
	sips.StatusPaymentRequired:             402,
	sips.StatusForbidden:                   403,
	sips.StatusNotFound:                    404,
	sips.StatusMethodNotAllowed:            405,
	sips.StatusNotAcceptable:               406,
	sips.StatusProxyAuthenticationRequired: 407,
	sips.StatusRequestTimeout:              408,
	sips.StatusGone:                        410,
	sips.StatusRequestEntityTooLarge:       413,
	sips.StatusRequestURITooLong:           414,
	sips.StatusUnsupportedMediaType:        415,
	sips.StatusUnsupportedURIScheme:        416,
	sips.StatusBadExtension:                420,
	sips.StatusExtensionRequired:           421,
	sips.StatusIntervalTooBrief:            423,
	sips.StatusNoResponse:                  480,
	sips.StatusCallTransactionDoesNotExist: 481,
	sips.StatusLoopDetected:                482,
	sips.StatusTooManyHops:                 483,
	sips.StatusAddressIncomplete:           484,
	sips.StatusAmbigious:                   485,
	sips.StatusBusyHere:                    486,
	sips.StatusRequestTerminated:           487,
	sips.StatusNotAcceptableHere:           488,
	sips.StatusRequestPending:              491,
	sips.StatusUndecipherable:              493,
	sips.StatusServerInternalError:         500,
	sips.StatusNotImplemented:              501,
	sips.StatusBadGateway:                  502,
	sips.StatusServiceUnavailable:          503,
	sips.StatusServerTimeout:               504,
	sips.StatusVersionNotSupported:         505,
	sips.StatusMessageTooLarge:             513,
	sips.StatusBusyEverywhere:              600,
	sips.StatusDecline:                     603,
	sips.StatusDoesNotExistAnywhere:        604,
	sips.StatusUnacceptable:                606,
}
