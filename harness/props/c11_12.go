package props

import (
	"bytes"
	"fmt"
	"reflect"
	"sync"

	"github.com/ecoshub/jin"

	"jinverif/engine"
	"jinverif/gen"
	"jinverif/refjson"
)

// guarded is a slice with spare capacity whose whole backing array is watched.
type guardedBytes struct {
	full, copy []byte
	b          []byte
}

func guardBytes(b []byte, spare int) *guardedBytes {
	g := &guardedBytes{full: make([]byte, len(b)+spare)}
	copy(g.full, b)
	for i := len(b); i < len(g.full); i++ {
		g.full[i] = byte(0xA0 + i%7)
	}
	g.copy = append([]byte(nil), g.full...)
	g.b = g.full[:len(b)]
	if b == nil {
		g.b = nil
	}
	return g
}

func (g *guardedBytes) check(c *C, what, call string) {
	if !bytes.Equal(g.full, g.copy) {
		c.Failf("%s writes to its caller's %s (spare capacity included): %q, was %q", call, what, g.full, g.copy)
	}
}

// scribble overwrites the buffer, as a caller reusing it would.
func (g *guardedBytes) scribble() {
	for i := range g.full {
		g.full[i] = 'X'
	}
	copy(g.copy, g.full)
}

type guardedStrings struct {
	full, copy []string
	s          []string
}

func guardStrings(s []string, spare int) *guardedStrings {
	g := &guardedStrings{full: make([]string, len(s)+spare)}
	copy(g.full, s)
	for i := len(s); i < len(g.full); i++ {
		g.full[i] = fmt.Sprint("spare", i)
	}
	g.copy = append([]string(nil), g.full...)
	g.s = g.full[:len(s)]
	return g
}

func (g *guardedStrings) check(c *C, what, call string) {
	for i := range g.full {
		if g.full[i] != g.copy[i] {
			c.Failf("%s writes to its caller's %s (spare capacity included): %q, was %q", call, what, g.full, g.copy)
		}
	}
}

func (g *guardedStrings) scribble() {
	for i := range g.full {
		g.full[i] = "scribbled"
	}
	copy(g.copy, g.full)
}

// kept is a result handed out earlier.
type kept struct {
	what string
	b    []byte
	want string
}

type keeper struct {
	list []kept
}

func (k *keeper) add(what string, b []byte) {
	k.list = append(k.list, kept{what, b, string(b)})
}

func (k *keeper) check(c *C, after string) {
	for _, x := range k.list {
		if string(x.b) != x.want {
			c.Failf("%s changes the result of the earlier %s: %q, was %q", after, x.what, x.b, x.want)
		}
	}
}

type call struct {
	name string
	run  func()
}

// runBuffers makes every call once on guarded arguments.
func runBuffers(c *C) {
	d := gen.RandomDoc(c)
	all := docCase(c, d)
	var p []string
	if c.N(4) == 3 {
		p, _ = gen.MissingPath(c, d, all)
	} else {
		p = all[c.N(len(all))].Path()
	}
	c.Note("path %q", p)
	if len(all) > 3 && len(p) > 0 {
		c.NonTrivial()
	}
	spare := []int{0, 1, 3, 64, 3*len(d.Text) + 300}[c.N(5)]
	doc := guardBytes(d.Text, spare)
	path := guardStrings(p, spare)
	keys := guardStrings([]string{"a", "b", "0"}[:c.N(4)], spare)
	val := guardBytes([]byte(gen.Value(c)), spare)
	a := &Args{Path: path.s, Key: newKey(c, d.Root), Index: c.N(3), Raw: val.b, Str: "text", I: -5, I32: 7, I64: 1 << 40, U: 3, U32: 4, U64: 5, F: 1.5, B: true}
	check := func(name string) {
		doc.check(c, "document", name)
		path.check(c, "path", name)
		keys.check(c, "key list", name)
		val.check(c, "value", name)
	}
	for _, r := range reads {
		r.Free(doc.b, path.s)
		check(r.Name)
	}
	jin.GetAll(doc.b, keys.s, path.s...)
	check("GetAll")
	jin.GetAllMap(doc.b, keys.s, path.s...)
	check("GetAllMap")
	seen := [][]string{}
	want := [][]string{}
	jin.Walk(doc.b, func(k string, v []byte, q []string) (bool, error) {
		seen = append(seen, q)
		want = append(want, append([]string(nil), q...))
		_ = append(q, "appended")
		return true, nil
	})
	check("Walk")
	for i := range seen {
		if !reflect.DeepEqual(append([]string{}, seen[i]...), append([]string{}, want[i]...)) {
			c.Failf("Walk changes a path it handed out earlier: %q, was %q", seen[i], want[i])
		}
	}
	fl := jin.Flatten(doc.b)
	check("Flatten")
	in := jin.Indent(doc.b)
	check("Indent")
	s := jin.MakeScheme(keys.s...)
	s.Check(doc.b)
	s.CheckAbs(doc.b)
	s.MutateJson(doc.b)
	s.MutateJsonAbs(doc.b)
	s.Add("spare-key")
	s.Remove("a")
	s.Save()
	s.Add("other-key")
	s.Restore()
	check("Scheme")
	// edits: results must not depend on the buffers any more
	type res struct {
		name string
		out  []byte
		want string
	}
	var outs []res
	outs = append(outs, res{"Flatten", fl, string(fl)}, res{"Indent", in, string(in)})
	for _, e := range edits {
		out, err := e.Free(doc.b, a)
		check(e.Name)
		if err == nil {
			outs = append(outs, res{e.Name, out, string(out)})
		}
		if e.JO != nil {
			j := jin.New(doc.b)
			if e.JO(j, a) == nil {
				outs = append(outs, res{"JO " + e.Name, j.JSON(), j.String()})
			}
			check("JO " + e.Name)
		}
	}
	type pres struct {
		name string
		p    *jin.Parser
		want string
	}
	var pouts []pres
	if c.N(3) == 0 {
		for _, e := range edits {
			if e.P == nil {
				continue
			}
			ps, err := jin.Parse(doc.b)
			if err != nil {
				c.Failf("Parse fails: %v", err)
			}
			e.P(ps, a)
			check("Parser " + e.Name)
			if _, err := ps.Get(a.Path...); err == nil && e.P(ps, a) == nil {
				pouts = append(pouts, pres{e.Name, ps, string(ps.JSON()) + ps.TreeFull() + string(ps.GetNew())})
			}
			for _, r := range reads {
				if r.P != nil {
					r.P(ps, path.s)
					check("Parser " + r.Name)
				}
			}
			ps.GetNew(path.s...)
			ps.TreeFull()
			check("Parser GetNew")
		}
	}
	doc.scribble()
	path.scribble()
	val.scribble()
	keys.scribble()
	for _, r := range outs {
		if string(r.out) != r.want {
			c.Failf("result of %s changes when the caller reuses its buffers: %q, was %q", r.name, r.out, r.want)
		}
	}
	for _, r := range pouts {
		if s := string(r.p.JSON()) + r.p.TreeFull() + string(r.p.GetNew()); s != r.want {
			c.Failf("a parser edited with %s changes when the caller reuses its buffers: %q, was %q", r.name, s, r.want)
		}
	}
}

// runRetained keeps results over a history.
func runRetained(c *C) {
	d := startDoc(c)
	c.Note("%s", d.Text)
	var k keeper
	free := append(make([]byte, 0, len(d.Text)+32), d.Text...)
	j := jin.New(append(make([]byte, 0, len(d.Text)+32), d.Text...))
	p, err := jin.Parse(append(make([]byte, 0, len(d.Text)+32), d.Text...))
	if err != nil {
		c.Failf("Parse fails: %v", err)
	}
	k.add("start", free)
	k.add("JO.JSON", j.JSON())
	k.add("Parser.JSON", p.JSON())
	n := c.Range(2, histLen(c))
	ctr := c.Mark()
	done := 0
	for i := 0; i < n; i++ {
		c.BeginItem(ctr)
		e := edits[c.N(len(edits))]
		a := drawEdit(c, d, e, 5)
		c.Note("%s", e.show(a))
		b := cloneArgs(a)
		out, err := e.Free(free, a)
		if err == nil {
			done++
			free = out
		}
		k.check(c, e.show(a))
		k.add(e.show(a), free)
		if v, err := jin.Get(free, a.Path...); err == nil {
			k.add("Get", v)
		}
		if e.JO != nil {
			e.JO(j, a)
			k.check(c, "JO "+e.show(a))
			k.add("JO.JSON", j.JSON())
		}
		if e.P != nil {
			e.P(p, a)
			k.check(c, "Parser "+e.show(a))
			k.add("Parser.JSON", p.JSON())
			if v, err := p.Get(b.Path...); err == nil {
				k.add("Parser.Get", v)
			}
			k.add("Parser.GetNew", p.GetNew())
		}
		if !reflect.DeepEqual(cloneArgs(a), b) {
			c.Failf("%s changes its arguments", e.show(b))
		}
		root, err := refjson.Parse(free)
		if err != nil {
			c.Discard()
		}
		d = &gen.Doc{Text: append([]byte(nil), free...), Root: root}
		c.End()
	}
	if done >= 2 {
		c.NonTrivial()
	}
}

// runSchemeLists checks that schemes share their lists with nobody.
func runSchemeLists(c *C) {
	given := guardStrings([]string{"k0", "k1", "k2", "k3"}[:c.N(5)], c.N(4))
	s := jin.MakeScheme(given.s...)
	type list struct {
		what    string
		l, want []string
	}
	var lists []list
	var others []*jin.Scheme
	n := c.Range(1, 10)
	ctr := c.Mark()
	c.NonTrivial()
	var desc []string
	for i := 0; i < n; i++ {
		c.BeginItem(ctr)
		op := c.N(8)
		desc = append(desc, fmt.Sprint(op))
		switch op {
		case 0:
			k := []string{"k0", "x", "y", "z"}[c.N(4)]
			s.Add(k)
		case 1:
			s.Remove([]string{"k0", "k1", "x", "y"}[c.N(4)])
		case 2:
			s.Save()
		case 3:
			s.Restore()
		case 4:
			l := s.GetCurrentKeys()
			lists = append(lists, list{"GetCurrentKeys", l, append([]string(nil), l...)})
		case 5:
			l := s.GetOriginalKeys()
			lists = append(lists, list{"GetOriginalKeys", l, append([]string(nil), l...)})
		case 6: // a second scheme on the same list
			others = append(others, jin.MakeScheme(given.s...))
			others[len(others)-1].Add("other")
		case 7: // a caller changing its copy
			cur, orig := fmt.Sprintf("%q", s.GetCurrentKeys()), fmt.Sprintf("%q", s.GetOriginalKeys())
			l := s.GetCurrentKeys()
			for i := range l {
				l[i] = "changed"
			}
			_ = append(l, "appended")
			l = s.GetOriginalKeys()
			for i := range l {
				l[i] = "changed"
			}
			_ = append(l, "appended")
			if c1, o1 := fmt.Sprintf("%q", s.GetCurrentKeys()), fmt.Sprintf("%q", s.GetOriginalKeys()); c1 != cur || o1 != orig {
				c.Failf("a scheme changes with the lists it returned: current %s, was %s; original %s, was %s", c1, cur, o1, orig)
			}
		}
		given.check(c, "key list", "Scheme op "+fmt.Sprint(op))
		for _, l := range lists {
			if fmt.Sprintf("%q", l.l) != fmt.Sprintf("%q", l.want) {
				c.Failf("op %d changes the list %s returned earlier: %q, was %q", op, l.what, l.l, l.want)
			}
		}
		c.End()
	}
	c.Note("%q ops %v", given.s, desc)
	cur, orig := fmt.Sprintf("%q", s.GetCurrentKeys()), fmt.Sprintf("%q", s.GetOriginalKeys())
	given.scribble()
	if c1, o1 := fmt.Sprintf("%q", s.GetCurrentKeys()), fmt.Sprintf("%q", s.GetOriginalKeys()); c1 != cur || o1 != orig {
		c.Failf("a scheme changes with the list it was made from: current %s, was %s; original %s, was %s", c1, cur, o1, orig)
	}
}

// runBuilders checks that builders only read their arguments.
func runBuilderArgs(c *C) {
	spare := c.N(4)
	keys := guardStrings([]string{"a", "b", "c"}[:c.N(4)], spare)
	vals := guardStrings([]string{"1", "x", `"q"`}[:len(keys.s)], spare)
	raw := guardBytes([]byte(gen.Value(c)), spare)
	ints := append(make([]int, 0, 5), 1, 2, 3)[:c.N(4)]
	bools := append(make([]bool, 0, 5), true, false)[:c.N(3)]
	floats := append(make([]float64, 0, 5), 1.5, -2, 3)[:c.N(4)]
	any := append(make([]interface{}, 0, 6), 1, "two", 3.5)[:len(keys.s)]
	i2, b2, f2, a2 := append([]int{}, ints[:cap(ints)]...), append([]bool{}, bools[:cap(bools)]...), append([]float64{}, floats[:cap(floats)]...), append([]interface{}{}, any[:cap(any)]...)
	m := map[string]string{"a": "1", "b": "x"}
	c.Note("%q %q %q", keys.s, vals.s, raw.b)
	c.NonTrivial()
	bufs := append(make([][]byte, 0, 4), raw.b, raw.b)
	outs := map[string][]byte{
		"MakeArray":       jin.MakeArray(any...),
		"MakeArrayString": jin.MakeArrayString(vals.s),
		"MakeArrayInt":    jin.MakeArrayInt(ints),
		"MakeArrayBool":   jin.MakeArrayBool(bools),
		"MakeArrayFloat":  jin.MakeArrayFloat(floats),
		"MakeArrayBytes":  jin.MakeArrayBytes(bufs...),
		"MakeJson":        jin.MakeJson(keys.s, any),
		"MakeJsonString":  jin.MakeJsonString(keys.s, vals.s),
		"MakeJsonWithMap": jin.MakeJsonWithMap(m),
		"MakeEmptyJson":   jin.MakeEmptyJson(),
		"MakeEmptyArray":  jin.MakeEmptyArray(),
		"MakeArrayBytes1": jin.MakeArrayBytes(raw.b),
	}
	want := map[string]string{}
	for k, v := range outs {
		want[k] = string(v)
	}
	keys.check(c, "key list", "a builder")
	vals.check(c, "value list", "a builder")
	raw.check(c, "value", "a builder")
	if !reflect.DeepEqual(i2, ints[:cap(ints)]) || !reflect.DeepEqual(b2, bools[:cap(bools)]) || !reflect.DeepEqual(f2, floats[:cap(floats)]) || !reflect.DeepEqual(a2, any[:cap(any)]) {
		c.Failf("a builder writes to its argument list")
	}
	if bufs[:4][2] != nil || bufs[:4][3] != nil {
		c.Failf("MakeArrayBytes writes to its argument list")
	}
	if len(m) != 2 || m["a"] != "1" || m["b"] != "x" {
		c.Failf("MakeJsonWithMap changes the map")
	}
	raw.scribble()
	keys.scribble()
	vals.scribble()
	// results are independent of each other too
	for _, v := range [][]byte{jin.MakeEmptyJson(), jin.MakeEmptyArray(), jin.MakeArrayInt(nil), jin.MakeJsonString(nil, nil), jin.MakeArray()} {
		for i := range v {
			v[i] = '#'
		}
	}
	for k, v := range outs {
		if string(v) != want[k] {
			c.Failf("the result of %s changes when buffers are reused: %q, was %q", k, v, want[k])
		}
	}
	for k, v := range map[string][]byte{"MakeEmptyJson": jin.MakeEmptyJson(), "MakeEmptyArray": jin.MakeEmptyArray()} {
		if string(v) != want[k] {
			c.Failf("%s gives %q after the caller changed an earlier result", k, v)
		}
	}
}

// op is a call on shared data that renders its result.
type op struct {
	name string
	run  func() string
}

type sharedData struct {
	kind  int
	doc   []byte
	paths [][]string
	p     *jin.Parser
	j     *jin.JO
	s     *jin.Scheme
	keys  []string
	vals  []string
	raw   []byte
	any   []interface{}
}

func drawOp(c *C, d *gen.Doc, sh *sharedData) op {
	path := sh.paths[c.N(len(sh.paths))]
	kind := c.Weighted(30, 30, 8, 12, 8, 12)
	if sh.kind >= 0 && c.N(4) > 0 {
		kind = sh.kind
	}
	switch kind {
	case 0:
		r := reads[c.N(len(reads))]
		return op{r.Name, func() string { s, _, err := r.Free(sh.doc, path); return fmt.Sprint(s, err) }}
	case 1:
		e := edits[c.N(len(edits))]
		a := drawEdit(c, d, e, 15)
		if c.N(2) == 0 {
			a.Path = path
		}
		if a.Raw != nil {
			a.Raw = sh.raw
		}
		return op{e.show(a), func() string { out, err := e.Free(sh.doc, a); return fmt.Sprintf("%s %v", out, err) }}
	case 2:
		if r := reads[c.N(len(reads))]; r.JO != nil {
			return op{"JO " + r.Name, func() string { s, err := r.JO(sh.j, path); return fmt.Sprint(s, err) }}
		}
		return op{"JO.Walk", func() string {
			s := ""
			err := sh.j.Walk(func(k string, v []byte, p []string) (bool, error) {
				s += fmt.Sprintf("%q %q %q\n", k, v, p)
				return true, nil
			})
			return fmt.Sprint(s, err)
		}}
	case 3:
		r := reads[c.N(len(reads))]
		k := c.N(4)
		if sh.p == nil { // none yet
			return op{"Parse, read", func() string {
				p, err := jin.Parse(sh.doc)
				if err != nil {
					return err.Error()
				}
				if k == 0 && r.P != nil {
					s, err := r.P(p, path)
					return fmt.Sprint(s, err)
				}
				return p.Tree() + p.TreeFull() + string(p.GetNew(path...))
			}}
		}
		if r.P != nil && k < 2 {
			return op{"Parser " + r.Name, func() string { s, err := r.P(sh.p, path); return fmt.Sprint(s, err) }}
		}
		switch k {
		case 1:
			return op{"Parser.Tree", func() string { return sh.p.Tree() }}
		case 2:
			return op{"Parser.TreeFull", func() string { return sh.p.TreeFull() }}
		case 3:
			return op{"Parse", func() string {
				p, err := jin.Parse(sh.doc)
				if err != nil {
					return err.Error()
				}
				return p.Tree()
			}}
		}
		return op{"Parser.GetNew", func() string { return string(sh.p.GetNew(path...)) }}
	case 4:
		switch c.N(6) {
		case 0:
			return op{"Scheme.Check", func() string { return fmt.Sprint(sh.s.Check(sh.doc), sh.s.CheckAbs(sh.doc)) }}
		case 1:
			return op{"Scheme.MutateJson", func() string { b, err := sh.s.MutateJson(sh.doc); return fmt.Sprint(string(b), err) }}
		case 2:
			return op{"Scheme.MakeJson", func() string { return string(sh.s.MakeJson(sh.any...)) }}
		case 3:
			return op{"Scheme.MakeJsonString", func() string { return string(sh.s.MakeJsonString(sh.vals...)) }}
		case 4:
			return op{"Scheme keys", func() string { return fmt.Sprintf("%q %q", sh.s.GetCurrentKeys(), sh.s.GetOriginalKeys()) }}
		}
		return op{"scheme of its own", func() string {
			s := jin.MakeScheme(sh.keys...)
			s.Add("own")
			s.Save()
			s.Remove(sh.keys[0])
			r := fmt.Sprintf("%q %q", s.GetCurrentKeys(), s.GetOriginalKeys())
			s.Restore()
			return r + fmt.Sprintf("%q", s.GetCurrentKeys())
		}}
	}
	switch c.N(7) {
	case 0:
		return op{"Flatten", func() string { return string(jin.Flatten(sh.doc)) }}
	case 1:
		return op{"Indent", func() string { return string(jin.Indent(sh.doc)) }}
	case 2:
		return op{"Walk", func() string {
			s := ""
			err := jin.Walk(sh.doc, func(k string, v []byte, p []string) (bool, error) {
				s += fmt.Sprintf("%q %q %q\n", k, v, p)
				return true, nil
			})
			return fmt.Sprint(s, err)
		}}
	case 3:
		return op{"builders", func() string {
			return string(jin.MakeArray(sh.any...)) + string(jin.MakeArrayString(sh.vals)) + string(jin.MakeJsonString(sh.keys, sh.vals)) + string(jin.MakeArrayBytes(sh.raw, sh.raw)) + string(jin.MakeJson(sh.keys, sh.any))
		}}
	case 4:
		return op{"GetAll", func() string { r, err := jin.GetAll(sh.doc, sh.keys, path...); return fmt.Sprintf("%q %v", r, err) }}
	case 5:
		return op{"GetAllMap", func() string { r, err := jin.GetAllMap(sh.doc, sh.keys, path...); return mapShow(r) + fmt.Sprint(err) }}
	}
	return op{"ParseArray", func() string { return fmt.Sprintf("%q", jin.ParseArray(string(sh.doc))) }}
}

func share(c *C, d *gen.Doc, all []*refjson.Node, parser bool) *sharedData {
	sh := &sharedData{doc: guardBytes(d.Text, 16).b, raw: guardBytes([]byte(gen.Value(c)), 8).b}
	for i := c.Range(1, 3); i > 0; i-- {
		var p []string
		if c.N(5) == 4 {
			p, _ = gen.MissingPath(c, d, all)
		} else {
			p = all[c.N(len(all))].Path()
		}
		sh.paths = append(sh.paths, guardStrings(p, c.N(3)).s)
	}
	if parser {
		var err error
		sh.p, err = jin.Parse(sh.doc)
		if err != nil {
			c.Failf("Parse fails: %v", err)
		}
	}
	sh.j = jin.New(sh.doc)
	sh.kind = -1
	if c.N(2) == 1 { // mostly calls of one kind
		sh.kind = c.N(6)
	}
	ks := []string{"a", "b", "c"}
	for i, n := range d.Root.Kids {
		if i < 2 && n.Key != "" && n.Key != "b" && n.Key != "c" {
			ks[0] = n.Key
		}
	}
	sh.keys = guardStrings(ks, 4).s
	sh.vals = guardStrings([]string{"1", "two", ""}, 2).s
	sh.any = append(make([]interface{}, 0, 6), 1, "two", 3.5)
	sh.s = jin.MakeScheme(sh.keys...)
	return sh
}

func runConcurrent(c *C) { concurrent(c, false) }

// runFirst is a case of runConcurrent in which, in a new process, the calls in
// the goroutines are the first ones there.
func runFirst(c *C) { concurrent(c, true) }

func concurrent(c *C, first bool) {
	d := gen.SmallDoc(c)
	if c.N(8) == 7 {
		d = gen.DocOf(c, gen.Config{MaxDepth: 3, Wide: 4, Budget: c.Range(1, 8), Wrap: c.Range(8, 90), WrapKind: c.N(6)}, -1)
	}
	all := docCase(c, d)
	sh := share(c, d, all, !first || c.N(2) == 0)
	n := c.Range(2, 8)
	same := c.N(3) == 2          // the same calls in several goroutines
	late := first || c.N(2) == 1 // calls alone come last, so that they leave nothing prepared
	ctr := c.Mark()
	var ops []op
	var want []string
	for i := 0; i < n; i++ {
		c.BeginItem(ctr)
		var o op
		if same && i > 0 && c.N(4) > 0 {
			o = ops[c.N(len(ops))]
		} else {
			o = drawOp(c, d, sh)
		}
		c.End()
		ops = append(ops, o)
		c.Note("%s", o.name)
	}
	// what each call gives alone
	alone := func() {
		for _, o := range ops {
			want = append(want, o.run())
		}
	}
	if !late {
		alone()
	}
	if len(all) > 3 && n >= 3 {
		c.NonTrivial()
	}
	const rounds = 3
	var wg sync.WaitGroup
	start := make(chan struct{})
	bad := make([]string, len(ops))
	results := make([][rounds]string, len(ops))
	for i, o := range ops {
		wg.Add(1)
		go func(i int, o op) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					bad[i] = fmt.Sprintf("%s panics in concurrence: %v", o.name, e)
				}
			}()
			<-start
			for r := 0; r < rounds; r++ {
				results[i][r] = o.run()
			}
		}(i, o)
	}
	close(start)
	wg.Wait()
	if late {
		alone()
	}
	for i, l := range results {
		for _, got := range l {
			if got != want[i] && bad[i] == "" {
				bad[i] = fmt.Sprintf("%s gives %q in concurrence, %q alone", ops[i].name, clipS(got), clipS(want[i]))
			}
		}
	}
	for _, b := range bad {
		if b != "" {
			c.Failf("%s", b)
		}
	}
}

func runReentrant(c *C) {
	d := gen.SmallDoc(c)
	all := docCase(c, d)
	sh := share(c, d, all, true)
	var ops []op
	var want []string
	n := c.Range(1, 4)
	ctr := c.Mark()
	for i := 0; i < n; i++ {
		c.BeginItem(ctr)
		o := drawOp(c, d, sh)
		c.End()
		ops = append(ops, o)
		want = append(want, o.run())
		c.Note("%s", o.name)
	}
	cont := gen.PickNode(c, all, func(n *refjson.Node) bool { return n.IsContainer() })
	p := guardStrings(cont.Path(), 2).s
	calls := 0
	inner := func() {
		for i, o := range ops {
			if got := o.run(); got != want[i] {
				c.Failf("%s within a callback gives %q, %q alone", o.name, clipS(got), clipS(want[i]))
			}
		}
		calls++
	}
	if len(cont.Kids) >= 2 {
		c.NonTrivial()
	}
	var got, exp []string
	for _, k := range cont.Kids {
		if cont.Kind == refjson.Obj {
			exp = append(exp, k.Key)
		}
		exp = append(exp, k.Text(d.Text))
	}
	var err error
	jo := c.N(2) == 1
	if cont.Kind == refjson.Obj {
		f := func(k, v []byte) (bool, error) {
			inner()
			got = append(got, string(k), string(v))
			return true, nil
		}
		if jo {
			err = sh.j.IterateKeyValue(f, p...)
		} else {
			err = jin.IterateKeyValue(sh.doc, f, p...)
		}
	} else {
		f := func(v []byte) (bool, error) {
			inner()
			got = append(got, string(v))
			return true, nil
		}
		if jo {
			err = sh.j.IterateArray(f, p...)
		} else {
			err = jin.IterateArray(sh.doc, f, p...)
		}
	}
	if len(cont.Kids) > 0 && (err != nil || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", exp)) {
		c.Failf("iteration at %q with calls inside gives %q, %v, want %q", p, got, err, exp)
	}
	// Walk with calls inside
	type leaf struct {
		p []string
		v string
	}
	var wlk []leaf
	cb := func(k string, v []byte, q []string) (bool, error) {
		inner()
		wlk = append(wlk, leaf{append([]string(nil), q...), string(v)})
		return true, nil
	}
	if jo {
		sh.j.Walk(cb)
	} else {
		jin.Walk(sh.doc, cb)
	}
	i := 0
	for _, m := range all {
		if m.IsContainer() {
			continue
		}
		if i >= len(wlk) || fmt.Sprintf("%q", wlk[i].p) != fmt.Sprintf("%q", m.Path()) || wlk[i].v != m.Text(d.Text) {
			c.Failf("Walk with calls inside does not reach %q in turn", m.Path())
		}
		i++
	}
	if i != len(wlk) {
		c.Failf("Walk with calls inside visits %d leaves, want %d", len(wlk), i)
	}
	c.LabelIf(calls >= 4, "4+ callbacks")
}

func init() {
	register(&engine.Prop{ID: "C11",
		Rule: "every function on documents, paths, values and key lists in buffers with spare capacity that is watched too; afterwards the buffers are overwritten and the results must not change; histories over which every earlier result is kept; Walk paths and Scheme lists kept. Non-trivial: 3 values or more and a non-empty path; 2 successful edits; any Scheme or builder history.",
		Parts: []engine.Part{
			{Name: "buffers", Quick: 12000, Thorough: 400000, Run: runBuffers},
			{Name: "retained", Quick: 8000, Thorough: 300000, Run: runRetained},
			{Name: "schemes", Quick: 10000, Thorough: 500000, Run: runSchemeLists},
			{Name: "builders", Quick: 3000, Thorough: 100000, Run: runBuilderArgs},
		}})
	register(&engine.Prop{ID: "C12", Race: true,
		Rule: "2 to 8 random calls (reads, edits, Walk, formatting, builders, Parser and JO reads, Scheme use) over one document, path slices with spare capacity, Parser, JO and Scheme, run at once in goroutines under the race detector and compared with what each gives alone (before, or only afterwards); the same as the first calls of a new process; and run from inside iteration and Walk callbacks. Non-trivial: 3 calls or more and 3 values or more; a container of 2 or more.",
		Parts: []engine.Part{
			{Name: "concurrent", Serial: true, Quick: 2500, Thorough: 60000, Run: runConcurrent},
			{Name: "first", Fresh: true, Quick: 1500, Thorough: 30000, Run: runFirst},
			{Name: "reentrant", Quick: 8000, Thorough: 200000, Run: runReentrant},
		}})
}
