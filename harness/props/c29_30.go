package props

import (
	"bytes"
	"errors"
	"strings"

	"github.com/ecoshub/jin"

	"jinverif/engine"
	"jinverif/gen"
)

var errStop = errors.New("stop")

// badArgs draws arguments without regard to any document.
func badArgs(c *C) *Args {
	c.Begin()
	defer c.End()
	a := &Args{Path: gen.AnyPath(c)}
	a.Key = []string{"a", "b", "", `"`, `\`, "\x00", "0"}[c.N(7)]
	a.Index = []int{0, 1, 2, -1, 5, 1 << 40, -1 << 62}[c.N(7)]
	switch c.N(5) {
	case 0:
		a.Raw = []byte(gen.Value(c))
	case 1:
		a.Raw = gen.BadBytes(c)
	case 2:
		a.Raw = []byte([]string{"", `"`, "{", "]", ",", ":", `\`, " ", "1", `"a":1`}[c.N(10)])
	case 3:
		a.Raw = nil
	case 4:
		a.Raw = []byte("1")
	}
	a.Str = string(a.Raw)
	a.I, a.I32, a.I64 = int(drawInt64(c)), int32(drawInt64(c)), drawInt64(c)
	a.U, a.U32, a.U64 = uint(drawUint64(c)), uint32(drawUint64(c)), drawUint64(c)
	a.F, a.B = drawFloat(c), c.N(2) == 1
	return a
}

// freeCalls makes every free and JO call on the document.
func freeCalls(doc []byte, a *Args) {
	for _, r := range reads {
		r.Free(doc, a.Path)
	}
	for _, e := range edits {
		e.Free(doc, a)
		if e.JO != nil {
			j := jin.New(doc)
			e.JO(j, a)
			j.Get(a.Path...)
			_ = j.String()
		}
	}
	jin.GetAll(doc, []string{a.Key, "0"}, a.Path...)
	jin.GetAllMap(doc, nil, a.Path...)
	jin.Walk(doc, func(string, []byte, []string) (bool, error) { return true, nil })
	jin.New(doc).Walk(func(string, []byte, []string) (bool, error) { return false, nil })
	jin.IterateArray(doc, func([]byte) (bool, error) { return false, nil }, a.Path...)
	jin.IterateKeyValue(doc, func(k, v []byte) (bool, error) { return true, errStop }, a.Path...)
	jin.Flatten(doc)
	jin.Indent(doc)
	jin.ParseArray(string(doc))
	keys := a.Path
	if len(keys) > 4 {
		keys = keys[:4]
	}
	s := jin.MakeScheme(cat([]string{a.Key}, keys...)...)
	s.Check(doc)
	s.CheckAbs(doc)
	s.MutateJson(doc)
	s.MutateJsonAbs(doc)
	s.Add(a.Key)
	s.Remove(a.Str)
	s.MakeJson(a.Str)
	s.MakeJsonString(a.Str, a.Key)
	s.MakeJson()
	jin.MakeArray(a.Str, a.I, a.F, a.B, nil, doc)
	jin.MakeArrayString([]string{a.Str, a.Key, string(doc)})
	jin.MakeArrayBytes(doc, a.Raw)
	jin.MakeJson([]string{a.Key}, []interface{}{a.Str})
	jin.MakeJson(nil, nil)
	jin.MakeJsonString([]string{a.Key, "x"}, []string{a.Str})
	jin.MakeJsonWithMap(map[string]string{a.Key: a.Str})
	jin.MakeJsonWithMap(nil)
}

func parserReads(p *jin.Parser, a *Args, tree bool) {
	for _, r := range reads {
		if r.P != nil {
			r.P(p, a.Path)
		}
	}
	p.GetNew(a.Path...)
	p.GetNew()
	p.JSON()
	if tree {
		p.Tree()
		p.TreeFull()
	}
}

// parserCalls makes every Parser call, each edit on a parser of its own.
func parserCalls(doc []byte, a *Args, tree bool) bool {
	p, err := jin.Parse(doc)
	if err != nil {
		return false
	}
	parserReads(p, a, tree)
	for _, e := range edits {
		if e.P == nil {
			continue
		}
		q, err := jin.Parse(append([]byte(nil), doc...))
		if err != nil {
			continue
		}
		if e.P(q, a) == nil {
			parserReads(q, a, tree)
		}
	}
	return true
}

func deepDoc(c *C, max int) []byte {
	n := c.Range(1, max)
	open := []string{"[", "{", `{"a":`, "[1,", `[{"a":`, `{"a":{`, `"`, `\`, "[[],", "{},", " "}[c.N(11)]
	shut := []string{"]", "}", "", `"`, "]]", "}]", ","}[c.N(7)]
	inner := []string{"", "1", `"x"`, "{}", "[]", "null"}[c.N(6)]
	m := n
	switch c.N(3) {
	case 1:
		m = c.N(n + 1)
	case 2:
		m = n + c.N(3)
	}
	return []byte(strings.Repeat(open, n) + inner + strings.Repeat(shut, m))
}

func tinyBytes(c *C) []byte {
	if c.Tier == "thorough" {
		return gen.TinyBytes(c, 6)
	}
	return gen.TinyBytes(c, 4)
}

var tinyArgSets = []*Args{
	{Path: nil, Key: "a", Raw: []byte("1"), Str: ""},
	{Path: []string{"a"}, Key: "a", Raw: nil, Str: `"`},
	{Path: []string{"0"}, Key: "", Index: 1, Raw: []byte(`"`), Str: "a"},
	{Path: []string{"1"}, Key: "b", Index: -1, Raw: []byte(""), Str: "["},
	{Path: []string{""}, Key: "1", Index: 0, Raw: []byte("{"), Str: "{}"},
	{Path: []string{"a", "a"}, Key: "a", Index: 0, Raw: []byte("[]"), Str: `\`},
	{Path: []string{"0", "0"}, Key: "a", Index: 0, Raw: []byte("2"), Str: "2"},
	{Path: []string{"0", "a"}, Key: "a", Index: 0, Raw: []byte("2"), Str: "2"},
	{Path: []string{"a", "0"}, Key: "a", Index: 0, Raw: []byte("2"), Str: "2"},
}

// checkSplice checks that a successful edit changed the text in one place only.
func checkSplice(c *C, e *Edit, a *Args, old, out []byte) {
	if e.Kind == kDelete {
		pre, suf := 0, 0
		for pre < len(out) && pre < len(old) && out[pre] == old[pre] {
			pre++
		}
		for suf < len(out) && suf < len(old) && out[len(out)-1-suf] == old[len(old)-1-suf] {
			suf++
		}
		if len(out) >= len(old) || pre+suf < len(out) {
			c.Failf("%s does not remove one span: %q", e.show(a), out)
		}
		return
	}
	val := []byte(a.Key)
	if e.Kind != kSetKey {
		val = []byte(e.storedRaw(a))
		if e.Val == vRaw && a.Raw == nil {
			switch e.Kind {
			case kAddKeyValue: // stores null
			case kStore: // nothing or null
				return
			default:
				val = nil
			}
		}
	}
	insertion := e.Kind == kAdd || e.Kind == kInsert || e.Kind == kAddKeyValue
	gap := func(g []byte, key bool) bool {
		s := strings.TrimLeft(string(g), " \t\r\n")
		s = strings.TrimLeft(strings.TrimPrefix(s, ","), " \t\r\n")
		if key && s != "" {
			k := `"` + a.Key + `"`
			if !strings.HasPrefix(s, k) {
				return false
			}
			s = strings.TrimLeft(s[len(k):], " \t\r\n")
			if !strings.HasPrefix(s, ":") {
				return false
			}
			s = strings.TrimLeft(s[1:], " \t\r\n")
		}
		return s == ""
	}
	keyed := e.Kind == kAddKeyValue || e.Kind == kStore
	lcp, lcs := 0, 0 // what out and old begin and end with alike
	for lcp < len(out) && lcp < len(old) && out[lcp] == old[lcp] {
		lcp++
	}
	for lcs < len(out) && lcs < len(old) && out[len(out)-1-lcs] == old[len(old)-1-lcs] {
		lcs++
	}
	at := func(val []byte) bool {
		for q := 0; q+len(val) <= len(out); q++ {
			if !bytes.HasPrefix(out[q:], val) {
				continue
			}
			pre, suf, rest := lcp, lcs, out[q+len(val):]
			if pre > q {
				pre = q
			}
			if suf > len(rest) {
				suf = len(rest)
			}
			before := bytes.TrimRight(out[:q], " \t\r\n")
			behindKey := keyed && bytes.HasSuffix(before, []byte(":"))
			for i := pre; i >= 0 && i >= q-len(a.Key)-12; i-- {
				if !gap(out[i:q], keyed) {
					if !behindKey {
						break // a longer one is none either
					}
					continue
				}
				for s := suf; s >= 0 && s >= len(rest)-12; s-- {
					if !gap(rest[:len(rest)-s], false) {
						break
					}
					if i+s == len(old) || !insertion && i+s < len(old) {
						return true
					}
				}
			}
		}
		return false
	}
	if at(val) {
		return
	}
	if e.Val == vStr && (at([]byte(a.Str)) || at([]byte(`"`+a.Str+`"`))) {
		return // not a valid text of a string: stored as it is or in quotes
	}
	c.Failf("%s changes more than one place, or not to the new value: %q", e.show(a), out)
}

func runC30(c *C, doc []byte, a *Args, only *Edit) {
	ok := 0
	for _, e := range edits {
		if e.Val == vFloat || only != nil && e != only {
			continue
		}
		orig := append([]byte(nil), doc...)
		out, err := e.Free(doc, a)
		if !bytes.Equal(doc, orig) {
			c.Failf("%s writes to the document", e.show(a))
		}
		if err != nil {
			if !bytes.Equal(out, orig) {
				c.Failf("%s fails (%v) but returns %q", e.show(a), err, out)
			}
		} else {
			ok++
			checkSplice(c, e, a, orig, out)
		}
		if e.JO != nil {
			j := jin.New(append([]byte(nil), doc...))
			jerr := e.JO(j, a)
			if (jerr == nil) != (err == nil) {
				c.Failf("JO %s: %v, free function: %v", e.show(a), jerr, err)
			}
			if jerr != nil && !bytes.Equal(j.JSON(), orig) {
				c.Failf("JO %s fails (%v) but leaves %q", e.show(a), jerr, j.JSON())
			} else if jerr == nil {
				checkSplice(c, e, a, orig, j.JSON())
			}
		}
	}
	if ok > 0 {
		c.NonTrivial()
		c.Label("some edit succeeds")
	}
}

// pathInto draws a path that might lead somewhere in damaged text: of a
// document that the text was made from.
func badCase(c *C) ([]byte, *Args) {
	doc := gen.BadBytes(c)
	a := badArgs(c)
	return doc, a
}

// damaged draws a damaged document and a path of the undamaged one.
func damaged(c *C) ([]byte, *Args) {
	d := gen.SmallDoc(c)
	a := badArgs(c)
	all := d.Root.All()
	n := all[c.N(len(all))]
	a.Path = n.Path()
	if c.N(4) == 3 {
		a.Path = cat(a.Path, gen.MissStep(c, d, n, all))
	}
	if n.Key != "" && c.N(2) == 1 {
		a.Key = n.Key
	}
	b := append([]byte(nil), d.Text...)
	if c.N(2) == 1 && len(b) > 0 {
		return b[:c.N(len(b))], a
	}
	for k := c.Range(1, 3); k > 0 && len(b) > 0; k-- {
		i := c.N(len(b))
		switch c.N(5) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b[i] = "{}[],:\"\\ 1"[c.N(10)]
		case 2:
			b = append(append(append([]byte(nil), b[:i]...), "{}[],:\"\\ 1"[c.N(10)]), b[i:]...)
		case 3:
			b[i] = byte(c.N(256))
		case 4:
			b = append(append(append([]byte(nil), b[:i]...), gen.Soup(c)...), b[i:]...)
		}
	}
	return b, a
}

func init() {
	register(&engine.Prop{ID: "C29",
		Rule: "arbitrary bytes (token soup, truncated, damaged and sliced documents, binary, very deep nesting; exhaustively all strings up to length 4 over 12 structural characters) with arbitrary paths, keys, values and indexes; every exported function and method must return. Non-trivial: 3 bytes or more with a structural character.",
		Parts: []engine.Part{
			{Name: "soup", Quick: 20000, Thorough: 1500000, Run: func(c *C) {
				doc, a := badCase(c)
				c.Note("%q %q %q %d %q", doc, a.Path, a.Key, a.Index, a.Raw)
				nontrivialBytes(c, doc)
				freeCalls(doc, a)
				c.LabelIf(parserCalls(doc, a, true), "Parse accepts")
			}},
			{Name: "damaged", Quick: 15000, Thorough: 1500000, Run: func(c *C) {
				doc, a := damaged(c)
				c.Note("%q %q %q %d %q", doc, a.Path, a.Key, a.Index, a.Raw)
				nontrivialBytes(c, doc)
				freeCalls(doc, a)
				c.LabelIf(parserCalls(doc, a, true), "Parse accepts")
			}},
			{Name: "small", Exhaustive: true, Quick: 30000, Thorough: 4000000, Run: func(c *C) {
				doc := tinyBytes(c)
				c.Note("%q", doc)
				nontrivialBytes(c, doc)
				for _, a := range tinyArgSets {
					freeCalls(doc, a)
					parserCalls(doc, a, true)
				}
			}},
			{Name: "history", Quick: 6000, Thorough: 400000, Run: func(c *C) {
				var doc []byte
				if c.N(3) == 0 {
					doc = gen.SmallDoc(c).Text
				} else {
					doc = gen.BadBytes(c)
				}
				c.Note("%q", doc)
				nontrivialBytes(c, doc)
				p, err := jin.Parse(append([]byte(nil), doc...))
				j := jin.New(append([]byte(nil), doc...))
				n := c.Range(1, 8)
				ctr := c.Mark()
				for i := 0; i < n; i++ {
					c.BeginItem(ctr)
					e := edits[c.N(len(edits))]
					a := badArgs(c)
					c.Note("%s", e.show(a))
					if e.P != nil && err == nil {
						e.P(p, a)
						parserReads(p, a, true)
					}
					if e.JO != nil {
						e.JO(j, a)
						for _, r := range reads {
							if r.JO != nil {
								r.JO(j, a.Path)
							}
						}
					}
					c.End()
				}
			}},
			{Name: "deep", Quick: 400, Thorough: 8000, Run: func(c *C) {
				doc := deepDoc(c, 3000)
				a := badArgs(c)
				step := []string{"a", "0", "1"}[c.N(3)]
				a.Path = nil
				for k := c.N(3000); k > 0; k-- {
					a.Path = append(a.Path, step)
				}
				c.Note("%d bytes %q... path of %d %q", len(doc), clipS(string(doc)), len(a.Path), step)
				c.NonTrivial()
				freeCalls(doc, a)
				p, err := jin.Parse(doc)
				if err == nil {
					parserReads(p, a, len(doc) < 1000)
				}
			}},
		}})

	register(&engine.Prop{ID: "C30",
		Rule: "damaged documents with paths into the undamaged ones, arbitrary bytes and arguments; every edit function: a success changes the text in one place only, to the new value verbatim; a failure leaves the text. Non-trivial: some edit succeeds.",
		Parts: []engine.Part{
			{Name: "damaged", Quick: 20000, Thorough: 1500000, Run: func(c *C) {
				doc, a := damaged(c)
				c.Note("%q %q %q %d %q", doc, a.Path, a.Key, a.Index, a.Raw)
				runC30(c, doc, a, nil)
			}},
			{Name: "soup", Quick: 20000, Thorough: 1000000, Run: func(c *C) {
				doc, a := badCase(c)
				c.Note("%q %q %q %d %q", doc, a.Path, a.Key, a.Index, a.Raw)
				runC30(c, doc, a, nil)
			}},
			{Name: "small", Exhaustive: true, Quick: 30000, Thorough: 4000000, Run: func(c *C) {
				doc := tinyBytes(c)
				c.Note("%q", doc)
				for _, a := range tinyArgSets {
					runC30(c, doc, a, nil)
				}
			}},
			{Name: "wellformed", Quick: 10000, Thorough: 500000, Run: func(c *C) {
				d := gen.RandomDoc(c)
				docCase(c, d)
				e := edits[c.N(len(edits))]
				a := drawEdit(c, d, e, 20)
				c.Note("%s", e.show(a))
				runC30(c, d.Text, a, e)
			}},
		}})
}

func nontrivialBytes(c *C, b []byte) {
	if len(b) >= 3 && bytes.ContainsAny(b, `{}[]",:`) {
		c.NonTrivial()
	}
	c.LabelIf(len(b) == 0, "empty input")
	c.LabelIf(len(b) > 100, "over 100 bytes")
}
