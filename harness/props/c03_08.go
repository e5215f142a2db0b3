package props

import (
	"bytes"

	"github.com/ecoshub/jin"

	"jinverif/engine"
	"jinverif/gen"
	"jinverif/refjson"
)

// runEdit draws one edit of one of the given functions and checks it.
func runEdit(c *C, fns []*Edit, wild int) {
	d := gen.RandomDoc(c)
	all := docCase(c, d)
	e := fns[c.N(len(fns))]
	a := drawEdit(c, d, e, wild)
	c.Note("%s", e.show(a))
	oneEdit(c, d, e, a, all)
}

func oneEdit(c *C, d *gen.Doc, e *Edit, a *Args, all []*refjson.Node) {
	if len(all) > 3 {
		c.NonTrivial()
	}
	orig := append([]byte(nil), d.Text...)
	out, err := e.Free(d.Text, a)
	if !bytes.Equal(orig, d.Text) {
		c.Failf("%s writes to the document", e.show(a))
	}
	nd := checkEdit(c, d, e, a, orig, out, err)
	c.LabelIf(err != nil, "impossible edit")
	if err == nil {
		// every path of the result reads what the tree says
		nodes := sampleNodes(c, nd.Root.All(), 12)
		for _, n := range nodes {
			got, gerr := jin.Get(out, n.Path()...)
			want := n.Text(out)
			if n.Parent == nil {
				want = string(out)
			}
			if gerr != nil || string(got) != want {
				c.Failf("after %s giving %q, Get %q = %q, %v, want %q", e.show(a), out, n.Path(), got, gerr, want)
			}
		}
	}
}

// smallEdits enumerates tiny documents and applies the edit everywhere.
func smallEdits(kind Kind, fn string) func(c *C) {
	return func(c *C) {
		var d *gen.Doc
		if c.Tier == "thorough" {
			d = gen.TinyDoc(c, 5, 4, 2)
		} else {
			d = gen.TinyDoc(c, 4, 3, 2)
		}
		all := docCase(c, d)
		e := editNamed(fn)
		if len(all) > 2 {
			c.NonTrivial()
		}
		run := func(a *Args) {
			orig := append([]byte(nil), d.Text...)
			out, err := e.Free(d.Text, a)
			checkEdit(c, d, e, a, orig, out, err)
		}
		for _, n := range all {
			for _, v := range []string{"7", `"v"`, `{"z":1}`} {
				p := n.Path()
				switch kind {
				case kSet, kAdd:
					run(&Args{Path: p, Raw: []byte(v)})
				case kAddKeyValue:
					for _, k := range []string{"a", "q"} {
						run(&Args{Path: p, Key: k, Raw: []byte(v)})
					}
				case kStore:
					if n.Kind == refjson.Arr {
						break
					}
					for _, k := range []string{"a", "b", "q"} {
						run(&Args{Path: p, Key: k, Raw: []byte(v)})
					}
				case kInsert:
					for i := -1; i <= len(n.Kids)+1; i++ {
						run(&Args{Path: p, Index: i, Raw: []byte(v)})
					}
				}
			}
			switch kind {
			case kDelete:
				run(&Args{Path: n.Path()})
			case kSetKey:
				for _, k := range []string{"a", "b", "q"} {
					run(&Args{Path: n.Path(), Key: k})
				}
			}
		}
	}
}

func editProp(id, rule string, fns []string, kind Kind) {
	var es []*Edit
	for _, f := range fns {
		es = append(es, editNamed(f))
	}
	register(&engine.Prop{ID: id, Rule: rule + " Non-trivial: the document has 3 values or more besides the root.",
		Parts: []engine.Part{
			{Name: "possible", Quick: 30000, Thorough: 1200000, Run: func(c *C) { runEdit(c, es, 0) }},
			{Name: "mixed", Quick: 15000, Thorough: 600000, Run: func(c *C) { runEdit(c, es, 60) }},
			{Name: "small", Exhaustive: true, Quick: 30000, Thorough: 2000000, Run: smallEdits(kind, fns[0])},
		}})
}

func init() {
	editProp("C03", "a random document, a value path and a new value; Set must give exactly the spliced text; impossible edits must fail leaving the text.", []string{"Set"}, kSet)
	editProp("C04", "a random document, a member path and a new key (absent, present, or the path ends elsewhere); SetKey must give exactly the spliced text or fail.", []string{"SetKey"}, kSetKey)
	editProp("C05", "a random document, a path and a key; AddKeyValue must append exactly one member to an object lacking the key, and fail with the right code otherwise.", []string{"AddKeyValue"}, kAddKeyValue)
	editProp("C06", "a random document, a path and for Insert an index; Add/Insert must put exactly one element at the right place, and fail with the right code otherwise.", []string{"Add", "Insert"}, kAdd)
	editProp("C07", "a random document and a path; Delete must remove exactly that value and its comma, and fail leaving the text otherwise.", []string{"Delete"}, kDelete)
	editProp("C08", "a random document, an object path, and a present or absent key; Store must equal Set or AddKeyValue on the model; unresolved and scalar paths must fail.", []string{"Store"}, kStore)
	p6 := Find("C06")
	p6.Parts = append(p6.Parts, engine.Part{Name: "small-insert", Exhaustive: true, Quick: 30000, Thorough: 2000000, Run: smallEdits(kInsert, "Insert")})
	// null for a nil value
	p5 := Find("C05")
	p5.Parts = append(p5.Parts, engine.Part{Name: "nil", Quick: 3000, Thorough: 50000, Run: func(c *C) {
		d := gen.RandomDoc(c)
		all := docCase(c, d)
		e := editNamed("AddKeyValue")
		a := drawEdit(c, d, e, 20)
		a.Raw = nil
		c.Note("%s", e.show(a))
		oneEdit(c, d, e, a, all)
	}})
}
