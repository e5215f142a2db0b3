package props

import (
	"bytes"
	"fmt"

	"github.com/ecoshub/jin"

	"jinverif/engine"
	"jinverif/gen"
	"jinverif/refjson"
)

var startDocs = []string{"{}", "[]", " { } ", "[ ]\n", `{"a":{}}`, `{"a":[]}`, "[{}]", "[[]]", `{"a":{"b":[]}}`, `[[],{}]`, `{"a":1}`, "[1]"}

// startDoc draws the document a history starts from.
func startDoc(c *C) *gen.Doc {
	switch c.Weighted(40, 35, 25) {
	case 0:
		return gen.New(startDocs[c.N(len(startDocs))])
	case 1:
		return gen.SmallDoc(c)
	}
	return gen.RandomDoc(c)
}

// drawKind draws an edit kind by weights that one history keeps, so that there
// are histories that mostly grow, mostly shrink, or stay with one kind.
func kindWeights(c *C) []int {
	w := make([]int, 7)
	for i := range w {
		w[i] = []int{3, 3, 0, 12}[c.N(4)]
	}
	if c.N(8) == 7 {
		w = []int{0, 0, 0, 0, 0, 0, 1} // delete only
	}
	t := 0
	for _, x := range w {
		t += x
	}
	if t == 0 {
		w = []int{1, 1, 1, 1, 1, 1, 1}
	}
	return w
}

func byKind(es []*Edit) [][]*Edit {
	out := make([][]*Edit, 7)
	for _, e := range es {
		out[e.Kind] = append(out[e.Kind], e)
	}
	return out
}

// runHistory applies a history of edits to the real thing and to the model.
func runHistory(c *C, es []*Edit, jo bool, max int) {
	d := startDoc(c)
	c.Note("%s", d.Text)
	kinds := byKind(es)
	w := kindWeights(c)
	var j *jin.JO
	if jo {
		j = jin.New(append([]byte(nil), d.Text...))
	}
	n := c.Range(1, max)
	ctr := c.Mark()
	done, kindSet := 0, map[Kind]bool{}
	for i := 0; i < n; i++ {
		c.BeginItem(ctr)
		k := c.Weighted(w...)
		if len(kinds[k]) == 0 {
			k = int(kSet)
		}
		e := kinds[k][c.N(len(kinds[k]))]
		a := drawEdit(c, d, e, 12)
		c.Note("%s", e.show(a))
		orig := append([]byte(nil), d.Text...)
		var out []byte
		var err error
		if jo {
			err = e.JO(j, a)
			out = j.JSON()
		} else {
			out, err = e.Free(d.Text, a)
			if !bytes.Equal(d.Text, orig) {
				c.Failf("%s writes to the document", e.show(a))
			}
		}
		d = checkEdit(c, d, e, a, orig, out, err)
		if err == nil {
			done++
			kindSet[e.Kind] = true
		}
		c.End()
	}
	if done >= 2 {
		c.NonTrivial()
	}
	c.LabelIf(done >= 10, "10+ successful edits")
	c.LabelIf(len(kindSet) >= 4, "4+ kinds of edits")
	c.LabelIf(done < n, "impossible edit within")
	// at the end every path reads what the tree says
	for _, m := range sampleNodes(c, d.Root.All(), 30) {
		p := m.Path()
		want := m.Text(d.Text)
		if m.Parent == nil {
			want = string(d.Text)
		}
		var got []byte
		var err error
		if jo {
			got, err = j.Get(p...)
		} else {
			got, err = jin.Get(d.Text, p...)
		}
		if err != nil || string(got) != want {
			c.Failf("in %q, Get %q = %q, %v, want %q", d.Text, p, got, err, want)
		}
	}
}

// smallHistory enumerates short histories on tiny documents.
func smallHistory(c *C) {
	d := gen.New(startDocs[c.N(len(startDocs))])
	c.Note("%s", d.Text)
	n := 2
	if c.Tier == "thorough" {
		n = 3
	}
	for i := 0; i < n; i++ {
		all := d.Root.All()
		var cont []*refjson.Node
		for _, m := range all {
			if m.IsContainer() || m.Parent != nil {
				cont = append(cont, m)
			}
		}
		m := cont[c.N(len(cont))]
		e := editNamed([]string{"Set", "SetKey", "AddKeyValue", "Add", "Insert", "Delete"}[c.N(6)])
		a := &Args{Path: m.Path(), Key: []string{"a", "b"}[c.N(2)]}
		a.Raw = []byte([]string{"1", `"s"`, "{}", "[]"}[c.N(4)])
		c.Note("%s", e.show(a))
		orig := append([]byte(nil), d.Text...)
		out, err := e.Free(d.Text, a)
		d = checkEdit(c, d, e, a, orig, out, err)
		if err == nil && i > 0 {
			c.NonTrivial()
		}
	}
	checkLookups(c, d, d.Root.All())
}

// snapshot renders every read at the given paths.
func snapshotFree(doc []byte, paths [][]string) string {
	var sb bytes.Buffer
	for _, p := range paths {
		for _, r := range reads {
			s, _, err := r.Free(doc, p)
			fmt.Fprintf(&sb, "%s %q = %s %v\n", r.Name, p, s, err)
		}
	}
	return sb.String()
}

func snapshotJO(j *jin.JO, paths [][]string) string {
	var sb bytes.Buffer
	fmt.Fprintf(&sb, "%q %q\n", j.JSON(), j.String())
	for _, p := range paths {
		for _, r := range reads {
			if r.JO != nil {
				s, err := r.JO(j, p)
				fmt.Fprintf(&sb, "%s %q = %s %v\n", r.Name, p, s, err)
			}
		}
	}
	return sb.String()
}

func snapshotParser(p *jin.Parser, paths [][]string) string {
	var sb bytes.Buffer
	fmt.Fprintf(&sb, "%q\n%s%s", p.JSON(), p.Tree(), p.TreeFull())
	for _, q := range paths {
		for _, r := range reads {
			if r.P != nil {
				s, err := r.P(p, q)
				fmt.Fprintf(&sb, "%s %q = %s %v\n", r.Name, q, s, err)
			}
		}
		fmt.Fprintf(&sb, "GetNew %q = %q\n", q, p.GetNew(q...))
	}
	return sb.String()
}

func clipDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	j := i - 80
	if j < 0 {
		j = 0
	}
	return fmt.Sprintf("before ...%s\n after ...%s", clipS(a[j:]), clipS(b[j:]))
}

// runFailing makes calls that mostly fail, in all forms.
func runFailing(c *C, d *gen.Doc, e *Edit, a *Args) {
	all := d.Root.All()
	paths := [][]string{nil, a.Path, cat(a.Path, a.Key)}
	if len(a.Path) > 0 {
		paths = append(paths, a.Path[:len(a.Path)-1])
	}
	for _, n := range sampleNodes(c, all, 6) {
		paths = append(paths, n.Path())
	}
	orig := string(d.Text)
	failed := false
	out, err := e.Free(d.Text, a)
	if err != nil {
		failed = true
		if string(out) != orig {
			c.Failf("%s fails (%v) but returns %q", e.show(a), err, out)
		}
		if string(d.Text) != orig {
			c.Failf("%s fails (%v) and writes to the document: %q", e.show(a), err, d.Text)
		}
	}
	if e.JO != nil {
		j := jin.New([]byte(orig))
		before := snapshotJO(j, paths)
		if err := e.JO(j, a); err != nil {
			failed = true
			if after := snapshotJO(j, paths); after != before {
				c.Failf("JO %s fails (%v) but changes the object:\n%s", e.show(a), err, clipDiff(before, after))
			}
		}
	}
	if e.P != nil {
		p, err := jin.Parse([]byte(orig))
		if err != nil {
			c.Failf("Parse fails: %v", err)
		}
		before := snapshotParser(p, paths)
		if err := e.P(p, a); err != nil {
			failed = true
			if after := snapshotParser(p, paths); after != before {
				c.Failf("Parser %s fails (%v) but changes the parser:\n%s", e.show(a), err, clipDiff(before, after))
			}
		}
	}
	if failed {
		c.NonTrivial()
	}
	c.LabelIf(!failed, "did not fail")
}

func init() {
	all := edits
	joEdits := editsOf(func(e *Edit) bool { return e.JO != nil })
	register(&engine.Prop{ID: "C09",
		Rule: "a random start document and a history of up to 14, sometimes 50 (thorough: 42, sometimes 150) edits of all kinds, as free functions or on a JO, each compared with a reference tree given the same edits (structure, order, error or not, nothing changed elsewhere); every path read at the end. Non-trivial: 2 successful edits or more.",
		Parts: []engine.Part{
			{Name: "free", Quick: 20000, Thorough: 600000, Run: func(c *C) { runHistory(c, all, false, histLen(c)) }},
			{Name: "jo", Quick: 15000, Thorough: 500000, Run: func(c *C) { runHistory(c, joEdits, true, histLen(c)) }},
			{Name: "small", Exhaustive: true, Quick: 400000, Thorough: 30000000, Run: smallHistory},
		}})
	register(&engine.Prop{ID: "C10",
		Rule: "a random document and an edit drawn to be impossible (unresolved path, wrong kind of target, existing key, null key or path, index out of range, unusable value), as free function, JO and Parser method; after an error the text and every read at the involved and sampled paths is as before. Non-trivial: the call failed.",
		Parts: []engine.Part{
			{Name: "impossible", Quick: 20000, Thorough: 600000, Run: func(c *C) {
				d := gen.RandomDoc(c)
				docCase(c, d)
				e := all[c.N(len(all))]
				a := drawEdit(c, d, e, 100)
				if c.N(8) == 7 {
					a.Key = ""
				}
				c.Note("%s", e.show(a))
				runFailing(c, d, e, a)
			}},
			{Name: "values", Quick: 8000, Thorough: 300000, Run: func(c *C) {
				// possible places with values that are not JSON
				d := gen.SmallDoc(c)
				docCase(c, d)
				e := all[c.N(len(all))]
				a := drawEdit(c, d, e, 10)
				b := badArgs(c)
				a.Raw, a.Str = b.Raw, b.Str
				if c.N(3) == 2 {
					a.Key = b.Key
				}
				c.Note("%s", e.show(a))
				runFailing(c, d, e, a)
			}},
			{Name: "history", Quick: 5000, Thorough: 200000, Run: func(c *C) {
				// failing calls within a history on one JO and one Parser
				d := startDoc(c)
				c.Note("%s", d.Text)
				p, err := jin.Parse(append([]byte(nil), d.Text...))
				if err != nil {
					c.Failf("Parse fails: %v", err)
				}
				j := jin.New(append([]byte(nil), d.Text...))
				n := c.Range(2, 8)
				ctr := c.Mark()
				for i := 0; i < n; i++ {
					c.BeginItem(ctr)
					e := all[c.N(len(all))]
					if e.JO == nil || e.P == nil {
						e = editNamed("Set")
					}
					a := drawEdit(c, d, e, 60)
					c.Note("%s", e.show(a))
					paths := [][]string{nil, a.Path}
					for _, m := range sampleNodes(c, d.Root.All(), 4) {
						paths = append(paths, m.Path())
					}
					jb, pb := snapshotJO(j, paths), snapshotParser(p, paths)
					if err := e.JO(j, a); err != nil {
						c.NonTrivial()
						if s := snapshotJO(j, paths); s != jb {
							c.Failf("JO %s fails (%v) but changes the object:\n%s", e.show(a), err, clipDiff(jb, s))
						}
					}
					if err := e.P(p, a); err != nil {
						c.NonTrivial()
						if s := snapshotParser(p, paths); s != pb {
							c.Failf("Parser %s fails (%v) but changes the parser:\n%s", e.show(a), err, clipDiff(pb, s))
						}
					}
					root, err := refjson.Parse(j.JSON())
					if err != nil {
						c.Discard() // other properties' business
					}
					d = &gen.Doc{Text: append([]byte(nil), j.JSON()...), Root: root}
					c.End()
				}
			}},
		}})
}

func histLen(c *C) int {
	n := 14
	switch x := c.N(400); {
	case x == 399:
		n = 300
	case x > 388:
		n = 50
	}
	if c.Tier == "thorough" {
		n *= 3
	}
	return n
}
