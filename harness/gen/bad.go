package gen

import (
	"jinverif/engine"
	"jinverif/refjson"
)

var soup = []string{"{", "}", "[", "]", ",", ":", `"`, `\`, " ", "\n", `"a"`, "1", "true", "null", `"a":`, `{"a":1}`, "[1]", "{}", "[]", `\"`, `\\`, "\x00", "a", "-", "\t", `"b"`, "0", "\xff", "é", `""`, `\u`, `\u0`, `\u00e`, `\u00e9`, "\r", "+", ".", "e", "00", "0x1", "1e", "-0", "tru", "nul", "/", "'", "\ufeff", "\xc3", `\n`, "1.5"}

// Soup draws a token of the kind that damage is made of.
func Soup(c *engine.Case) string { return soup[c.N(len(soup))] }

// BadBytes draws an arbitrary byte string: mostly damaged JSON.
func BadBytes(c *engine.Case) []byte {
	c.Begin()
	defer c.End()
	switch c.Weighted(25, 25, 30, 10, 10) {
	case 0: // structural soup
		n := c.Size(24)
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, soup[c.N(len(soup))]...)
		}
		if k := c.N(6); k > 2 { // in brackets that look right
			b = append(append([]byte([]string{"[", "{", `{"a":[`}[k-3]), b...), []string{"]", "}", `]}`}[k-3]...)
		}
		return b
	case 1: // truncated document
		d := SmallDoc(c).Text
		return append([]byte(nil), d[:c.N(len(d)+1)]...)
	case 2: // damaged document
		d := append([]byte(nil), SmallDoc(c).Text...)
		for k := c.Range(1, 3); k > 0 && len(d) > 0; k-- {
			i := c.N(len(d))
			switch c.N(5) {
			case 0:
				d = append(d[:i:i], d[i+1:]...)
			case 1:
				s := soup[c.N(len(soup))]
				d = append(append(append([]byte(nil), d[:i]...), s...), d[i:]...)
			case 2:
				d[i] = byte(c.N(256))
			case 3:
				s := soup[c.N(len(soup))]
				d[i] = s[0]
			case 4:
				j := c.N(len(d))
				d[i], d[j] = d[j], d[i]
			}
		}
		return d
	case 3: // a slice out of the middle
		d := SmallDoc(c).Text
		i := c.N(len(d) + 1)
		return append([]byte(nil), d[i:i+c.N(len(d)-i+1)]...)
	}
	n := c.Size(40)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(c.N(256))
	}
	return b
}

// TinyBytes enumerates short strings over the structural alphabet.
func TinyBytes(c *engine.Case, max int) []byte {
	const alphabet = "{}[]\":,\\ a1"
	n := c.N(max + 1)
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[c.N(len(alphabet))]
	}
	return b
}

// AnyPath draws a path without regard to any document.
func AnyPath(c *engine.Case) []string {
	n := c.Weighted(20, 40, 25, 15)
	p := make([]string, n)
	for i := range p {
		switch c.N(3) {
		case 0:
			p[i] = []string{"a", "b", "", "0", "1", "2", "-1"}[c.N(7)]
		case 1:
			p[i] = []string{"0", "1", "3", "10"}[c.N(4)]
		case 2:
			p[i] = Key(c)
		}
	}
	return p
}

// ResolvingPath draws a path of an existing node.
func ResolvingPath(c *engine.Case, all []*refjson.Node) []string {
	return all[c.N(len(all))].Path()
}
