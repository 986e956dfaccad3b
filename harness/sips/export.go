package sips

import (
	"strconv"

	"verif/mon"
)

// Message generates a well-formed message.
func Message(c *mon.C) []byte {
	m := newMessage(c)
	m.body = newBody(c)
	m.build(c, strconv.Itoa(len(m.body)), false)
	return m.wire
}

// Hostile generates a damaged or random message.
func Hostile(c *mon.C) []byte {
	p, _ := mutate(c)
	return p
}

// Fields generates header names and values.
func Fields(c *mon.C) (names, vals []string) {
	for _, f := range newMessage(c).fields {
		names, vals = append(names, f.name), append(vals, f.val)
	}
	return
}

// The texts of single values.
func AddressText(c *mon.C) string { return newAddress(c).address(c) }
func URIText(c *mon.C) string {
	u := newURI(c)
	return u.core() + paramText(c, u.args, false)
}
func ViaText(c *mon.C) string    { return newVia(c).text(c) }
func CseqText(c *mon.C) string   { return newCseq(c).text(c) }
func ParamText(c *mon.C) string  { return paramText(c, params(c, 6), true) }
func MethodText(c *mon.C) string { return anyCase(c, methods[c.N(len(methods))]) }
func Body(c *mon.C) []byte       { return newBody(c) }
