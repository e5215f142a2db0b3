package props

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/ecoshub/jin"

	"jinverif/engine"
	"jinverif/gen"
	"jinverif/refjson"
)

// sampleNodes draws at most max nodes (all of them when there are few).
func sampleNodes(c *C, all []*refjson.Node, max int) []*refjson.Node {
	if len(all) <= max {
		return all
	}
	out := make([]*refjson.Node, max)
	for i := range out {
		out[i] = all[c.N(len(all))]
	}
	if len(all) > 1000 {
		// the widest container, and what lies where counters end
		wide := all[0]
		for _, n := range all {
			if len(n.Kids) > len(wide.Kids) {
				wide = n
			}
		}
		out[0] = wide
		for i, k := range []int{len(wide.Kids) - 1, 65535, 65536} {
			if k >= 0 && k < len(wide.Kids) && i+1 < max {
				out[i+1] = wide.Kids[k]
			}
		}
	}
	return out
}

func labelDoc(c *C, d *gen.Doc, all []*refjson.Node) {
	t := string(d.Text)
	c.LabelIf(strings.Contains(t, `\`), "escapes")
	c.LabelIf(strings.ContainsAny(t, " \t\r\n"), "whitespace")
	c.LabelIf(len(all) > 50, "over 50 values")
	depth, wide, empty := 0, 0, false
	for _, n := range all {
		if k := n.Depth(); k > depth {
			depth = k
		}
		if len(n.Kids) > wide {
			wide = len(n.Kids)
		}
		if n.IsContainer() && len(n.Kids) == 0 {
			empty = true
		}
	}
	c.LabelIf(depth >= 5, "depth 5+")
	c.LabelIf(depth >= 20, "depth 20+")
	c.LabelIf(wide >= 10, "container of 10+")
	c.LabelIf(empty, "empty container")
	c.LabelIf(all[0].Kind == refjson.Arr, "array root")
}

func checkLookups(c *C, d *gen.Doc, nodes []*refjson.Node) {
	for _, n := range nodes {
		p := n.Path()
		want := n.Text(d.Text)
		if n.Parent == nil {
			want = string(d.Text)
		}
		got, err := jin.Get(d.Text, p...)
		if err != nil {
			c.Failf("Get %q fails: %v, want %q", p, err, clipS(want))
		}
		if string(got) != want {
			c.Failf("Get %q = %q, want %q", p, clipS(string(got)), clipS(want))
		}
		s, err := jin.GetString(d.Text, p...)
		if err != nil || s != want {
			c.Failf("GetString %q = %q, %v, want %q", p, clipS(s), err, clipS(want))
		}
	}
}

func docCase(c *C, d *gen.Doc) []*refjson.Node {
	c.Note("%s", d.Text)
	all := d.Root.All()
	labelDoc(c, d, all)
	prime(c, d, all)
	return all
}

func tinyArgs(c *C) *gen.Doc {
	if c.Tier == "thorough" {
		return gen.TinyDoc(c, 6, 4, 2)
	}
	return gen.TinyDoc(c, 4, 3, 2)
}

func init() {
	register(&engine.Prop{ID: "C01",
		Rule: "a random document; every value (or a sample of 40) looked up by its path and compared with the reference parser's span; GetAll/GetAllMap on drawn key lists. Non-trivial: at least 3 values besides the root.",
		Parts: []engine.Part{
			{Name: "lookup", Quick: 30000, Thorough: 1500000, Run: func(c *C) {
				d := gen.RandomDoc(c)
				all := docCase(c, d)
				if len(all) > 3 {
					c.NonTrivial()
				}
				checkLookups(c, d, sampleNodes(c, all, 40))
			}},
			{Name: "getall", Quick: 12000, Thorough: 400000, Run: func(c *C) {
				d := gen.RandomDoc(c)
				all := docCase(c, d)
				n := gen.PickNode(c, all, func(n *refjson.Node) bool { return n.IsContainer() && len(n.Kids) > 0 })
				if n == nil {
					c.Discard()
				}
				var keys, want []string
				for i := c.Range(1, 5); i > 0; i-- {
					k := n.Kids[c.N(len(n.Kids))]
					keys = append(keys, k.Label())
					want = append(want, k.Text(d.Text))
				}
				for k, m := many(c), len(keys); k > 1; k-- {
					keys, want = append(keys, keys[:m]...), append(want, want[:m]...)
				}
				p := n.Path()
				c.Note("%q %q", p, keys)
				if len(n.Kids) > 1 {
					c.NonTrivial()
				}
				got, err := jin.GetAll(d.Text, keys, p...)
				if err != nil || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
					c.Failf("GetAll %q at %q = %q, %v, want %q", keys, p, got, err, want)
				}
				m, err := jin.GetAllMap(d.Text, keys, p...)
				if err != nil {
					c.Failf("GetAllMap %q at %q fails: %v", keys, p, err)
				}
				uniq := map[string]string{}
				for i, k := range keys {
					uniq[k] = want[i]
				}
				if mapShow(m) != mapShow(uniq) {
					c.Failf("GetAllMap %q at %q = %q, want %q", keys, p, m, uniq)
				}
			}},
			{Name: "small", Exhaustive: true, Quick: 60000, Thorough: 3000000, Run: func(c *C) {
				d := tinyArgs(c)
				all := docCase(c, d)
				if len(all) > 3 {
					c.NonTrivial()
				}
				checkLookups(c, d, all)
			}},
		}})

	checkMiss := func(c *C, d *gen.Doc, p []string, miss refjson.Miss, all []*refjson.Node) {
		codes := missCodes(miss)
		for _, r := range reads {
			_, none, err := r.Free(d.Text, p)
			wantCode(c, err, codes, r.Name+fmt.Sprintf(" %q", p))
			if !none {
				c.Failf("%s %q returns a value along with %v", r.Name, p, err)
			}
		}
	}
	// the forms of JO and Parser; a Parser knows labels only, and may report KeyNotFound throughout
	checkMissObjects := func(c *C, d *gen.Doc, p []string, miss refjson.Miss) {
		codes := missCodes(miss)
		j, ps := jin.New(append([]byte(nil), d.Text...)), parse(c, d.Text)
		for _, r := range reads {
			if r.JO != nil {
				_, err := r.JO(j, p)
				wantCode(c, err, codes, "JO."+r.Name+fmt.Sprintf(" %q", p))
			}
			if r.P != nil {
				_, err := r.P(ps, p)
				wantCode(c, err, orKeyNotFound(codes), "Parser."+r.Name+fmt.Sprintf(" %q", p))
			}
		}
	}
	register(&engine.Prop{ID: "C02",
		Rule: "a random document and a path that stops resolving (absent or near-miss key, key of another level, index at or past the end, negative, non-index, step through a scalar), possibly continued; every read and edit function must fail with the expected code; and every error of any read or edit at any path, resolving or not, must be recognised by ErrEqual as exactly one code. Non-trivial: the path has 2 steps or more; errors of three codes or more.",
		Parts: []engine.Part{
			{Name: "reads", Quick: 25000, Thorough: 1200000, Run: func(c *C) {
				d := gen.RandomDoc(c)
				all := docCase(c, d)
				p, miss := gen.MissingPath(c, d, all)
				c.Note("%q", p)
				c.Label(fmt.Sprintf("miss %d", miss))
				if len(p) > 1 {
					c.NonTrivial()
				}
				checkMiss(c, d, p, miss, all)
				checkMissObjects(c, d, p, miss)
			}},
			{Name: "edits", Quick: 15000, Thorough: 600000, Run: func(c *C) {
				d := gen.RandomDoc(c)
				all := docCase(c, d)
				p, miss := gen.MissingPath(c, d, all)
				c.Note("%q", p)
				c.Label(fmt.Sprintf("miss %d", miss))
				if len(p) > 1 {
					c.NonTrivial()
				}
				a := &Args{Path: p, Key: gen.Key(c) + "k", Index: c.N(3), Raw: []byte(gen.Value(c)), Str: "s"}
				for _, e := range edits {
					_, err := e.Free(d.Text, a)
					wantCode(c, err, e.wantCodes(d, a), e.show(a))
				}
				j, ps := jin.New(append([]byte(nil), d.Text...)), parse(c, d.Text)
				for _, e := range edits {
					if e.JO != nil {
						wantCode(c, e.JO(j, a), e.wantCodes(d, a), "JO."+e.show(a))
					}
					if e.P != nil {
						wantCode(c, e.P(ps, a), orKeyNotFound(e.wantCodes(d, a)), "Parser."+e.show(a))
					}
				}
			}},
			{Name: "codes", Quick: 10000, Thorough: 400000, Run: func(c *C) {
				d := gen.RandomDoc(c)
				all := docCase(c, d)
				var p []string
				if c.N(3) == 0 {
					p, _ = gen.MissingPath(c, d, all)
				} else {
					p = all[c.N(len(all))].Path()
				}
				a := &Args{Path: p, Key: gen.Key(c), Index: c.N(5) - 1, Raw: []byte(gen.Value(c)), Str: "s"}
				c.Note("%q %q %d", p, a.Key, a.Index)
				seen := map[int]bool{}
				for _, r := range reads {
					if _, _, err := r.Free(d.Text, p); err != nil {
						seen[codeOf(c, err)] = true
					}
				}
				for _, e := range edits {
					if _, err := e.Free(d.Text, a); err != nil {
						seen[codeOf(c, err)] = true
					}
				}
				for k := range seen {
					c.Label(fmt.Sprintf("code %d", k))
				}
				for _, err := range []error{nil, io.EOF, errors.New(""), errors.New(gen.Key(c) + "x")} {
					for k := -1; k <= jin.ErrCodeEmpty; k++ {
						if jin.ErrEqual(err, k) {
							c.Failf("ErrEqual takes %v for code %d", err, k)
						}
					}
				}
				if len(seen) > 2 {
					c.NonTrivial()
				}
			}},
			{Name: "small", Exhaustive: true, Quick: 40000, Thorough: 3000000, Run: func(c *C) {
				var d *gen.Doc
				if c.Tier == "thorough" {
					d = gen.TinyDoc(c, 5, 3, 2)
				} else {
					d = gen.TinyDoc(c, 3, 3, 2)
				}
				all := docCase(c, d)
				n := 0
				try := func(p []string) {
					if _, miss := d.Root.Resolve(p); miss != refjson.OK {
						n++
						codes := missCodes(miss)
						for _, name := range []string{"Get", "GetType", "IterateArray", "IterateKeyValue", "Length"} {
							r := readNamed(name)
							_, none, err := r.Free(d.Text, p)
							wantCode(c, err, codes, r.Name+fmt.Sprintf(" %q", p))
							if !none {
								c.Failf("%s %q returns a value along with %v", r.Name, p, err)
							}
						}
					}
				}
				steps := []string{"a", "b", "0", "1"}
				for _, m := range all {
					for _, s := range steps {
						p := cat(m.Path(), s)
						if _, miss := d.Root.Resolve(p); miss == refjson.OK {
							continue
						}
						try(p)
						for _, t := range steps {
							try(cat(p, t))
							try(cat(p, t, "a"))
						}
					}
				}
				if n > 8 {
					c.NonTrivial()
				}
			}},
		}})
}

func orKeyNotFound(codes []int) []int {
	if codes == nil {
		return nil
	}
	return append([]int{jin.ErrCodeKeyNotFound}, codes...)
}
