package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/ecoshub/jin"

	"jinverif/engine"
	"jinverif/gen"
	"jinverif/refjson"
)

// checkParserReads compares a Parser with the reference tree of its text at the
// given nodes and unresolved paths.
func checkParserReads(c *C, p *jin.Parser, d *gen.Doc, nodes []*refjson.Node, missing [][]string) {
	deep := false
	for _, n := range nodes {
		deep = deep || len(d.Text) > 1<<14 && n.Depth() > 4500
	}
	for i, n := range nodes {
		q := n.Path()
		want := n.Text(d.Text)
		if n.Parent == nil {
			want = string(d.Text)
		}
		got, err := p.Get(q...)
		if err != nil || string(got) != want {
			c.Failf("in %q Parser.Get %q = %q, %v, want %q", clipS(string(d.Text)), q, clipS(string(got)), err, clipS(want))
		}
		s, err := p.GetString(q...)
		if err != nil || s != want {
			c.Failf("in %q Parser.GetString %q = %q, %v, want %q", clipS(string(d.Text)), q, clipS(s), err, clipS(want))
		}
		if g, err := jin.Get(d.Text, q...); err != nil || string(g) != string(got) {
			c.Failf("in %q Get %q = %q, %v but Parser.Get gives %q", clipS(string(d.Text)), q, clipS(string(g)), err, clipS(string(got)))
		}
		if deep && i%8 > 0 {
			continue // GetNew takes time quadratic in the depth
		}
		nv := p.GetNew(q...)
		if n.IsContainer() {
			v, err := refjson.ParseVal(nv)
			if err != nil || !v.Equal(n.Val(d.Text)) {
				c.Failf("in %q GetNew %q = %q, want the equivalent of %q", clipS(string(d.Text)), q, clipS(string(nv)), clipS(n.Raw(d.Text)))
			}
		} else if string(nv) != n.Text(d.Text) {
			c.Failf("in %q GetNew %q = %q, want %q", clipS(string(d.Text)), q, clipS(string(nv)), clipS(n.Text(d.Text)))
		}
	}
	for _, q := range missing {
		if got, err := p.Get(q...); err == nil {
			c.Failf("in %q Parser.Get %q = %q, but the path does not resolve", clipS(string(d.Text)), q, got)
		} else if got != nil {
			c.Failf("in %q Parser.Get %q gives %q along with %v", clipS(string(d.Text)), q, got, err)
		}
		if got, err := p.GetString(q...); err == nil || got != "" {
			c.Failf("in %q Parser.GetString %q = %q, %v, but the path does not resolve", clipS(string(d.Text)), q, got, err)
		}
	}
}

// checkParserTyped compares every Parser read with the free function on the text.
func checkParserTyped(c *C, p *jin.Parser, d *gen.Doc, paths [][]string) {
	for _, q := range paths {
		for _, r := range reads {
			if r.P == nil {
				continue
			}
			g, gerr := r.P(p, q)
			w, _, werr := r.Free(d.Text, q)
			if (gerr == nil) != (werr == nil) || gerr == nil && g != w {
				c.Failf("in %q Parser.%s %q = %s, %v, but the text gives %s, %v", clipS(string(d.Text)), r.Name, q, clipS(g), gerr, clipS(w), werr)
			}
		}
	}
}

func parse(c *C, text []byte) *jin.Parser {
	p, err := jin.Parse(append([]byte(nil), text...))
	if err != nil {
		c.Failf("Parse of %q fails: %v", clipS(string(text)), err)
	}
	return p
}

// parserEdit performs one edit on a Parser and compares its text with the
// reference tree. It returns the document after the edit.
func parserEdit(c *C, p *jin.Parser, d *gen.Doc, e *Edit, a *Args) (*gen.Doc, bool) {
	err := e.P(p, a)
	out := append([]byte(nil), p.JSON()...)
	model := d.Val()
	feasible := e.apply(model, a)
	if e.Val != vRaw && e.Kind == kAddKeyValue && a.Key == "" {
		feasible = false
	}
	if !feasible {
		if err == nil {
			c.Failf("Parser %s succeeds on %q, want an error", e.show(a), clipS(string(d.Text)))
		}
		if !bytes.Equal(out, d.Text) {
			c.Failf("Parser %s fails (%v) but changes the document to %q", e.show(a), err, clipS(string(out)))
		}
		return d, false
	}
	if err != nil {
		c.Failf("Parser %s fails on %q: %v", e.show(a), clipS(string(d.Text)), err)
	}
	pe, pa := parserForm(d, e, a, out)
	if pe != e {
		model = d.Val()
		pe.apply(model, pa)
	}
	root, perr := refjson.Parse(out)
	if perr != nil {
		c.Failf("Parser %s gives malformed %q", e.show(a), clipS(string(out)))
	}
	if !pe.matches(root.Val(out), model, pa) {
		c.Failf("Parser %s gives %q\n want the equivalent of %s", e.show(a), clipS(string(out)), clipS(model.String()))
	}
	return &gen.Doc{Text: out, Root: root}, true
}

// parserDraw draws an edit that a Parser has, in its domain.
func parserDraw(c *C, d *gen.Doc, kinds [][]*Edit, w []int, wild int) (*Edit, *Args) {
	k := c.Weighted(w...)
	if len(kinds[k]) == 0 {
		k = int(kSet)
	}
	e := kinds[k][c.N(len(kinds[k]))]
	a := drawEdit(c, d, e, wild)
	if !parserString(e, a) {
		a.Str = "s"
	}
	return e, a
}

// treeLine is a line of a Tree.
type treeLine struct {
	depth      int
	label, raw string
}

func treeLines(d *gen.Doc) []treeLine {
	var out []treeLine
	for _, n := range d.Root.All() {
		if n.Parent != nil {
			out = append(out, treeLine{n.Depth() - 1, n.Label(), n.Raw(d.Text)})
		}
	}
	return out
}

func stripWS(s string) string {
	return strings.Map(func(r rune) rune {
		if strings.ContainsRune(" \t\r\n", r) {
			return -1
		}
		return r
	}, s)
}

func checkTree(c *C, p *jin.Parser, d *gen.Doc) {
	want := treeLines(d)
	t := p.Tree()
	lines := strings.Split(t, "\n")
	if lines[len(lines)-1] != "" {
		c.Failf("Tree does not end its last line: %q", t)
	}
	lines = lines[:len(lines)-1]
	if len(lines) != len(want) {
		c.Failf("Tree has %d lines, want %d:\n%s", len(lines), len(want), t)
	}
	for i, l := range lines {
		w := want[i]
		body := strings.TrimLeft(l, "\t")
		if len(l)-len(body) != w.depth {
			c.Failf("Tree line %d %q is at depth %d, want %d", i, l, len(l)-len(body), w.depth)
		}
		if !strings.HasSuffix(body, " "+w.label) {
			c.Failf("Tree line %d %q is not labelled %q", i, l, w.label)
		}
		if mark := stripWS(strings.TrimSuffix(body, " "+w.label)); utf8.RuneCountInString(mark) != 1 {
			c.Failf("Tree line %d %q is not labelled %q", i, l, w.label)
		}
	}
	full := p.TreeFull()
	rest := stripWS(full)
	for i, w := range want {
		_, k := utf8.DecodeRuneInString(rest)
		rest = rest[k:]
		exp := stripWS(w.label) + ":" + stripWS(w.raw)
		if !strings.HasPrefix(rest, exp) {
			c.Failf("TreeFull differs at entry %d, want %s : %s:\n%s", i, w.label, w.raw, clipS(full))
		}
		rest = rest[len(exp):]
	}
	if rest != "" {
		c.Failf("TreeFull has more than the document's entries: %q", clipS(rest))
	}
	if bytes.ContainsAny(d.Text, "\n\r") {
		return
	}
	// one line per node as long as the values are on one line
	lines = strings.Split(strings.TrimSuffix(full, "\n"), "\n")
	if len(want) == 0 {
		return
	}
	if len(lines) != len(want) {
		c.Failf("TreeFull has %d lines, want %d:\n%s", len(lines), len(want), full)
	}
	for i, l := range lines {
		if k := len(l) - len(strings.TrimLeft(l, "\t")); k != want[i].depth {
			c.Failf("TreeFull line %d %q is at depth %d, want %d", i, l, k, want[i].depth)
		}
		if !strings.HasSuffix(strings.TrimRight(l, " \t"), want[i].raw) {
			c.Failf("TreeFull line %d %q does not end in the value %q", i, l, want[i].raw)
		}
	}
}

// joStep makes one call on a JO and the same call on its text.
func joStep(c *C, j *jin.JO, d *gen.Doc, cur []byte) (next []byte, edited bool) {
	if c.N(2) == 0 {
		e := joEdits[c.N(len(joEdits))]
		var a *Args
		if d != nil {
			a = drawEdit(c, d, e, 20)
		} else {
			a = badArgs(c)
		}
		c.Note("%s", e.show(a))
		want, werr := e.Free(append([]byte{}, cur...), cloneArgs(a))
		err := e.JO(j, cloneArgs(a))
		if fmt.Sprint(err) != fmt.Sprint(werr) {
			c.Failf("JO %s on %q: error %v, the free function gives %v", e.show(a), clipS(string(cur)), err, werr)
		}
		if !bytes.Equal(j.JSON(), want) || j.String() != string(want) {
			c.Failf("JO %s on %q holds %q (%q), the free function gives %q", e.show(a), clipS(string(cur)), clipS(string(j.JSON())), clipS(j.String()), clipS(string(want)))
		}
		return append([]byte{}, want...), err == nil
	}
	var p []string
	if d != nil {
		all := d.Root.All()
		if c.N(4) == 3 {
			p, _ = gen.MissingPath(c, d, all)
		} else {
			p = all[c.N(len(all))].Path()
		}
	} else {
		p = gen.AnyPath(c)
	}
	stop, mode := c.N(4), c.N(nStops)
	c.Note("reads at %q, stop mode %d at %d", p, mode, stop)
	for _, r := range reads {
		if r.JO == nil {
			continue
		}
		g, gerr := r.JO(j, p)
		w, _, werr := r.Free(cur, p)
		if g != w || fmt.Sprint(gerr) != fmt.Sprint(werr) {
			c.Failf("JO %s %q on %q = %s, %v, the free function gives %s, %v", r.Name, p, clipS(string(cur)), clipS(g), gerr, clipS(w), werr)
		}
	}
	keys := []string{}
	for i := c.N(4); i > 0; i-- {
		keys = append(keys, gen.Key(c))
	}
	if d != nil {
		if n, m := d.Root.Resolve(p); m == refjson.OK && len(n.Kids) > 0 {
			keys = nil
			for i := c.N(4); i > 0; i-- {
				keys = append(keys, n.Kids[c.N(len(n.Kids))].Label())
			}
		}
	}
	ga, e1 := j.GetAll(keys, p...)
	wa, e2 := jin.GetAll(cur, keys, p...)
	gm, e3 := j.GetAllMap(keys, p...)
	wm, e4 := jin.GetAllMap(cur, keys, p...)
	if show(ga) != show(wa) || fmt.Sprint(e1) != fmt.Sprint(e2) || mapShow(gm) != mapShow(wm) || fmt.Sprint(e3) != fmt.Sprint(e4) {
		c.Failf("JO GetAll %q %q on %q = %q, %v, %q, %v, the free functions give %q, %v, %q, %v", keys, p, clipS(string(cur)), ga, e1, gm, e3, wa, e2, wm, e4)
	}
	trace := func(walk func(func(string, []byte, []string) (bool, error)) error, arr func(func([]byte) (bool, error), ...string) error, kv func(func([]byte, []byte) (bool, error), ...string) error) string {
		var sb strings.Builder
		n := 0
		answer := func() (bool, error) {
			n++
			if n-1 == stop {
				switch mode {
				case stopFalse:
					return false, nil
				case stopErr:
					return false, errStopHere
				case stopErrTrue:
					return true, errStopHere
				}
			}
			return true, nil
		}
		err := walk(func(k string, v []byte, p []string) (bool, error) {
			fmt.Fprintf(&sb, "%q %q %q\n", k, v, p)
			return answer()
		})
		fmt.Fprintln(&sb, err)
		n = 0
		err = arr(func(v []byte) (bool, error) {
			fmt.Fprintf(&sb, "%q\n", v)
			return answer()
		}, p...)
		fmt.Fprintln(&sb, err)
		n = 0
		err = kv(func(k, v []byte) (bool, error) {
			fmt.Fprintf(&sb, "%q %q\n", k, v)
			return answer()
		}, p...)
		fmt.Fprintln(&sb, err)
		return sb.String()
	}
	got := trace(j.Walk, j.IterateArray, j.IterateKeyValue)
	want := trace(func(f func(string, []byte, []string) (bool, error)) error { return jin.Walk(cur, f) },
		func(f func([]byte) (bool, error), p ...string) error { return jin.IterateArray(cur, f, p...) },
		func(f func([]byte, []byte) (bool, error), p ...string) error {
			return jin.IterateKeyValue(cur, f, p...)
		})
	if got != want {
		c.Failf("JO Walk or iteration on %q differs from the free functions:\n%s", clipS(string(cur)), clipDiff(want, got))
	}
	if !bytes.Equal(j.JSON(), cur) {
		c.Failf("reading a JO changes its text from %q to %q", clipS(string(cur)), clipS(string(j.JSON())))
	}
	return cur, false
}

// runFiles writes content of many sizes and kinds to a file; ReadFile and
// ReadJSONFile must hold exactly that, twice over, and fail where there is no
// file.
func runFiles(c *C) {
	var content []byte
	switch c.Weighted(10, 10, 40, 20, 20) {
	case 0:
		content = []byte{}
	case 1:
		content = gen.BadBytes(c)
	default:
		// up to around a power of two, where buffers end
		size := 1<<uint(c.Range(0, 17)) + c.Range(-2, 2)
		if c.N(20) == 19 {
			size <<= uint(c.Range(1, 6)) // to 8 MiB
		}
		unit := gen.SmallDoc(c).Text
		if c.N(4) == 0 || len(unit) == 0 {
			unit = gen.BadBytes(c)
		}
		content = append(content, '[')
		for len(content) < size {
			content = append(content, unit...)
			content = append(content, ',')
		}
		content[len(content)-1] = ']'
		switch c.N(3) {
		case 0:
			content = content[:max(size, 1)]
		case 1:
			content = append(content, '1', '2')
		}
	}
	switch c.N(8) {
	case 0:
		content = append([]byte("\xef\xbb\xbf"), content...)
	case 1:
		content = append(content, '\n')
	case 2:
		content = append([]byte("\r\n\t "), append(content, " \r\n"...)...)
	case 3:
		content = append(content, 0)
	}
	c.Note("%d bytes: %s", len(content), content)
	dir, err := os.MkdirTemp("", "jinc23")
	if err != nil {
		panic("harness error: " + err.Error())
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, []string{"doc.json", "doc", "a b.txt", "\u00e9.json", ".json"}[c.N(5)])
	if err := os.WriteFile(name, content, 0o600); err != nil {
		panic("harness error: " + err.Error())
	}
	readers := map[string]func(string) (*jin.JO, error){"ReadFile": jin.ReadFile, "ReadJSONFile": jin.ReadJSONFile}
	for _, fn := range []string{"ReadFile", "ReadJSONFile"} {
		j, err := readers[fn](name)
		if err != nil {
			c.Failf("%s of a file of %d bytes fails: %v", fn, len(content), err)
		}
		if !bytes.Equal(j.JSON(), content) || j.String() != string(content) {
			c.Failf("%s of a file of %d bytes holds %d bytes: %q, not %q", fn, len(content), len(j.JSON()), clipS(string(j.JSON())), clipS(string(content)))
		}
		// two objects of one file are two objects
		k, err := readers[fn](name)
		if err != nil {
			c.Failf("%s of the same file again fails: %v", fn, err)
		}
		_ = k.Set([]byte("0"), "0")
		_ = k.AddKeyValue("k", []byte("0"))
		_ = k.Add([]byte("0"))
		if !bytes.Equal(j.JSON(), content) {
			c.Failf("edits of another object of the same file change this one to %q", clipS(string(j.JSON())))
		}
		for _, bad := range []string{name + ".missing", dir, ""} {
			if k, err := readers[fn](bad); err == nil {
				c.Failf("%s of no file gives %q and no error", fn, k.JSON())
			}
		}
	}
	now, err := os.ReadFile(name)
	if err != nil || !bytes.Equal(now, content) {
		c.Failf("reading a file changes it: %v", err)
	}
	if len(content) > 100 {
		c.NonTrivial()
	}
	c.LabelIf(len(content) > 4096, "over 4 KiB")
	c.LabelIf(len(content) > 65536, "over 64 KiB")
}

var joEdits []*Edit

func runJO(c *C, start []byte) {
	c.Note("%s", start)
	var j *jin.JO
	switch c.Weighted(60, 25, 15) {
	case 0:
		j = jin.New(append([]byte{}, start...))
	case 1:
		dir, err := os.MkdirTemp("", "jinc23")
		if err != nil {
			panic("harness error: " + err.Error())
		}
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "doc.json")
		if err := os.WriteFile(name, start, 0o600); err != nil {
			panic("harness error: " + err.Error())
		}
		read := jin.ReadFile
		if c.N(2) == 1 {
			read = jin.ReadJSONFile
		}
		j, err = read(name)
		if err != nil {
			c.Failf("reading a file with %q fails: %v", clipS(string(start)), err)
		}
		if k, err := read(name + ".missing"); err == nil {
			c.Failf("reading a missing file gives %q and no error", k.JSON())
		}
	case 2:
		deface(jin.NewJSON().JSON())
		j = jin.NewJSON()
		start = []byte("{}")
		c.Note("NewJSON")
	}
	if !bytes.Equal(j.JSON(), start) || j.String() != string(start) {
		c.Failf("a JO made of %q holds %q (%q)", clipS(string(start)), clipS(string(j.JSON())), clipS(j.String()))
	}
	cur := append([]byte{}, start...)
	n := c.Range(1, histLen(c))
	ctr := c.Mark()
	edits := 0
	for i := 0; i < n; i++ {
		c.BeginItem(ctr)
		var d *gen.Doc
		if root, err := refjson.Parse(cur); err == nil && root.IsContainer() {
			d = &gen.Doc{Text: cur, Root: root}
		}
		var ok bool
		cur, ok = joStep(c, j, d, cur)
		if ok {
			edits++
		}
		c.End()
	}
	if n > 1 {
		c.NonTrivial()
	}
	c.LabelIf(edits > 2, "3+ successful edits")
}

func init() {
	joEdits = editsOf(func(e *Edit) bool { return e.JO != nil })
	pEdits := byKind(editsOf(func(e *Edit) bool { return e.P != nil }))

	missingPaths := func(c *C, d *gen.Doc, all []*refjson.Node, n int) [][]string {
		var out [][]string
		for i := 0; i < n; i++ {
			p, _ := gen.MissingPath(c, d, all)
			out = append(out, p)
		}
		return out
	}
	register(&engine.Prop{ID: "C20",
		Rule: "a random document, parsed; Get, GetString and GetNew at every value or a sample of 40, and Get at 5 paths that do not resolve, against the reference tree and the interpreter. Part repeated: documents with repeated keys, at the values that no earlier member hides. Non-trivial: 3 values or more besides the root; in repeated: a key is repeated.",
		Parts: []engine.Part{
			{Name: "random", Quick: 50000, Thorough: 1500000, Run: func(c *C) {
				d := gen.RandomDoc(c)
				all := docCase(c, d)
				if len(all) > 3 {
					c.NonTrivial()
				}
				p := parse(c, d.Text)
				if !bytes.Equal(p.JSON(), d.Text) {
					c.Failf("Parser.JSON = %q", clipS(string(p.JSON())))
				}
				checkParserReads(c, p, d, sampleNodes(c, all, 40), missingPaths(c, d, all, 5))
				if !bytes.Equal(p.JSON(), d.Text) {
					c.Failf("reading changes Parser.JSON to %q", clipS(string(p.JSON())))
				}
			}},
			{Name: "repeated", Quick: 20000, Thorough: 600000, Run: func(c *C) {
				d, nodes := gen.DupDoc(c)
				docCase(c, d)
				if len(nodes) < len(d.Root.All()) {
					c.NonTrivial()
				}
				checkParserReads(c, parse(c, d.Text), d, sampleNodes(c, nodes, 40), nil)
			}},
			{Name: "small", Exhaustive: true, Quick: 60000, Thorough: 3000000, Run: func(c *C) {
				d := tinyArgs(c)
				all := docCase(c, d)
				if len(all) > 3 {
					c.NonTrivial()
				}
				p := parse(c, d.Text)
				var missing [][]string
				for _, n := range all {
					for _, s := range []string{"a", "b", "0", "1", "-1", ""} {
						q := cat(n.Path(), s)
						if _, m := d.Root.Resolve(q); m != refjson.OK {
							missing = append(missing, q)
						}
					}
				}
				checkParserReads(c, p, d, all, missing)
			}},
		}})
	history := func(c *C, tree bool) {
		d := startDoc(c)
		c.Note("%s", d.Text)
		p := parse(c, d.Text)
		w := kindWeights(c)
		n := c.Range(1, histLen(c))
		ctr := c.Mark()
		done := 0
		for i := 0; i < n; i++ {
			c.BeginItem(ctr)
			e, a := parserDraw(c, d, pEdits, w, 15)
			c.Note("%s", e.show(a))
			var ok bool
			d, ok = parserEdit(c, p, d, e, a)
			if ok {
				done++
			}
			c.LabelIf(!ok, "impossible edit within")
			if tree {
				if c.N(3) == 0 || i == n-1 {
					checkTree(c, p, d)
				}
			} else {
				all := d.Root.All()
				nodes := sampleNodes(c, all, 8)
				var paths [][]string
				for _, m := range nodes[:(len(nodes)+1)/2] {
					paths = append(paths, m.Path())
				}
				miss := missingPaths(c, d, all, 2)
				checkParserReads(c, p, d, nodes, miss)
				checkParserTyped(c, p, d, append(paths, miss...))
			}
			c.End()
		}
		if done >= 2 {
			c.NonTrivial()
		}
		c.LabelIf(done >= 10, "10+ successful edits")
		if !tree {
			checkParserReads(c, p, d, sampleNodes(c, d.Root.All(), 40), nil)
		}
	}
	register(&engine.Prop{ID: "C21",
		Rule: "a random start document, parsed, and a history of up to 14 (thorough: 40) Parser edits, raw and typed, some impossible; after each the text against a reference tree given the same edits, and every Parser read at sampled resolving and unresolved paths against that text. Non-trivial: 2 successful edits or more.",
		Parts: []engine.Part{
			{Name: "history", Quick: 30000, Thorough: 800000, Run: func(c *C) { history(c, false) }},
			{Name: "small", Exhaustive: true, Quick: 200000, Thorough: 20000000, Run: func(c *C) {
				d := gen.New(startDocs[c.N(len(startDocs))])
				c.Note("%s", d.Text)
				p := parse(c, d.Text)
				n := 2
				if c.Tier == "thorough" {
					n = 3
				}
				for i := 0; i < n; i++ {
					all := d.Root.All()
					m := all[c.N(len(all))]
					e := editNamed([]string{"Set", "SetKey", "AddKeyValue", "Add", "Insert", "Delete"}[c.N(6)])
					a := &Args{Path: m.Path(), Key: []string{"a", "b"}[c.N(2)]}
					a.Raw = []byte([]string{"1", `"s"`, "{}", "[]"}[c.N(4)])
					c.Note("%s", e.show(a))
					var ok bool
					d, ok = parserEdit(c, p, d, e, a)
					if ok && i > 0 {
						c.NonTrivial()
					}
				}
				checkParserReads(c, p, d, d.Root.All(), [][]string{{"q"}, {"9"}})
			}},
		}})
	register(&engine.Prop{ID: "C22",
		Rule: "a random document, parsed, Tree and TreeFull compared line by line with the reference tree (number, order, depth, label, value), at once and between the edits of a history. Part repeated: documents with repeated keys, at the values that no earlier member hides. Non-trivial: 3 values or more besides the root, or 2 successful edits; in repeated: a key is repeated.",
		Parts: []engine.Part{
			{Name: "random", Quick: 40000, Thorough: 1200000, Run: func(c *C) {
				cfg := gen.RandomConfig(c)
				if cfg.Budget > 60 {
					cfg.Budget = 60
				}
				d := gen.DocOf(c, cfg, -1)
				all := docCase(c, d)
				if len(all) > 3 {
					c.NonTrivial()
				}
				checkTree(c, parse(c, d.Text), d)
			}},
			{Name: "edited", Quick: 20000, Thorough: 600000, Run: func(c *C) { history(c, true) }},
			{Name: "repeated", Quick: 20000, Thorough: 600000, Run: func(c *C) {
				d, nodes := gen.DupDoc(c)
				docCase(c, d)
				if len(nodes) < len(d.Root.All()) {
					c.NonTrivial()
				}
				checkTree(c, parse(c, d.Text), d)
			}},
			{Name: "small", Exhaustive: true, Quick: 60000, Thorough: 3000000, Run: func(c *C) {
				d := tinyArgs(c)
				all := docCase(c, d)
				if len(all) > 3 {
					c.NonTrivial()
				}
				checkTree(c, parse(c, d.Text), d)
			}},
		}})
	register(&engine.Prop{ID: "C23",
		Rule: "a JO made with New, NewJSON or from a file, on a well-formed or damaged text, and a history of edits and rounds of all reads (also Walk and iteration stopped early), each compared with the free function on the current text. Part files: ReadFile and ReadJSONFile on contents of all sizes to 8 MiB. Non-trivial: 2 calls or more; in files: over 100 bytes.",
		Parts: []engine.Part{
			{Name: "wellformed", Quick: 25000, Thorough: 800000, Run: func(c *C) {
				d := startDoc(c)
				if len(d.Text) > 3000 {
					d = gen.SmallDoc(c)
				}
				runJO(c, d.Text)
			}},
			{Name: "damaged", Quick: 25000, Thorough: 800000, Run: func(c *C) { runJO(c, gen.BadBytes(c)) }},
			{Name: "files", Quick: 6000, Thorough: 120000, Run: runFiles},
		}})
}
