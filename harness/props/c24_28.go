package props

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/ecoshub/jin"

	"jinverif/engine"
	"jinverif/gen"
	"jinverif/refjson"
)

// flat is the document without insignificant whitespace: every token copied.
func flat(n *refjson.Node, text []byte) string {
	var sb strings.Builder
	var rec func(n *refjson.Node)
	rec = func(n *refjson.Node) {
		if !n.IsContainer() {
			sb.WriteString(n.Raw(text))
			return
		}
		open, end := byte('{'), byte('}')
		if n.Kind == refjson.Arr {
			open, end = '[', ']'
		}
		sb.WriteByte(open)
		for i, k := range n.Kids {
			if i > 0 {
				sb.WriteByte(',')
			}
			if n.Kind == refjson.Obj {
				sb.WriteString(`"` + k.Key + `":`)
			}
			rec(k)
		}
		sb.WriteByte(end)
	}
	rec(n)
	return sb.String()
}

func checkFlatten(c *C, d *gen.Doc, nodes []*refjson.Node) {
	want := flat(d.Root, d.Text)
	got := jin.Flatten(d.Text)
	if string(got) != want {
		c.Failf("Flatten gives %q, want %q", clipS(string(got)), clipS(want))
	}
	if again := jin.Flatten(got); string(again) != want {
		c.Failf("flattening twice gives %q, want %q", clipS(string(again)), clipS(want))
	}
	for _, n := range nodes {
		p := n.Path()
		if len(p) == 0 {
			continue
		}
		a, e1 := jin.Get(d.Text, p...)
		b, e2 := jin.Get(got, p...)
		w := n.Text(d.Text)
		if n.IsContainer() {
			w = flat(n, d.Text)
			if v, err := refjson.ParseVal(a); err != nil || !v.Equal(n.Val(d.Text)) {
				c.Failf("Get %q = %q before flattening", p, clipS(string(a)))
			}
		} else if string(a) != w {
			c.Failf("Get %q = %q before flattening, want %q", p, clipS(string(a)), w)
		}
		if e1 != nil || e2 != nil || string(b) != w {
			c.Failf("Get %q = %q, %v after flattening, want %q", p, clipS(string(b)), e2, clipS(w))
		}
	}
	defaced(c, "Flatten", jin.Flatten, d.Text, want)
}

// defaced makes sure that a result is the caller's to write to.
func defaced(c *C, name string, f func([]byte) []byte, text []byte, want string) {
	if len(text) > 2048 {
		return
	}
	deface(f(append([]byte(nil), text...)))
	if again := f(text); string(again) != want {
		c.Failf("once its result is written over, %s gives %q, before %q", name, clipS(string(again)), clipS(want))
	}
}

func checkIndent(c *C, d *gen.Doc) {
	got := jin.Indent(d.Text)
	root, err := refjson.Parse(got)
	if err != nil {
		c.Failf("Indent gives malformed %q", clipS(string(got)))
	}
	want := flat(d.Root, d.Text)
	if f := flat(root, got); f != want {
		c.Failf("Indent gives %q, which flattens to %q, want %q", clipS(string(got)), clipS(f), clipS(want))
	}
	if f := jin.Flatten(got); string(f) != want {
		c.Failf("Flatten of Indent gives %q, want %q", clipS(string(f)), clipS(want))
	}
	for _, n := range root.All() {
		if len(n.Kids) > 0 {
			lead := "\n" + strings.Repeat("\t", n.Depth())
			if e := n.E - 1; !bytes.HasSuffix(got[:e], []byte(lead)) {
				c.Failf("in the indented %q, the end of %q is not on a line of its own behind %d tabs", clipS(string(got)), n.Path(), n.Depth())
			}
		}
		if n.Parent == nil {
			continue
		}
		s := n.S
		if n.Parent.Kind == refjson.Obj {
			s = n.KS - 1
		}
		lead := "\n" + strings.Repeat("\t", n.Depth())
		if !bytes.HasSuffix(got[:s], []byte(lead)) {
			c.Failf("in the indented %q, %q is not on a line of its own behind %d tabs", clipS(string(got)), n.Path(), n.Depth())
		}
	}
	if again := jin.Indent(got); !bytes.Equal(again, got) {
		c.Failf("indenting twice gives %q, once %q", clipS(string(again)), clipS(string(got)))
	}
	if f := jin.Indent([]byte(want)); !bytes.Equal(f, got) {
		c.Failf("Indent of the flattened form gives %q, of the document %q", clipS(string(f)), clipS(string(got)))
	}
	defaced(c, "Indent", jin.Indent, d.Text, string(got))
}

// formatDoc draws a document, sometimes a scalar one.
func formatDoc(c *C) *gen.Doc {
	if c.N(16) == 15 {
		ws := func() string { return []string{"", " ", "\n", "\t \r\n"}[c.N(4)] }
		return gen.New(ws() + gen.Scalar(c) + ws())
	}
	return gen.RandomDoc(c)
}

// respace is the document with other whitespace.
func respace(c *C, d *gen.Doc) *gen.Doc {
	var sb strings.Builder
	ws := func() {
		for k := c.N(3); k > 0; k-- {
			sb.WriteByte(" \n\t\r"[c.N(4)])
		}
	}
	inStr := false
	text := flat(d.Root, d.Text)
	for i := 0; i < len(text); i++ {
		b := text[i]
		switch {
		case inStr:
			sb.WriteByte(b)
			if b == '\\' {
				i++
				sb.WriteByte(text[i])
			} else if b == '"' {
				inStr = false
			}
			continue
		case b == '"':
			inStr = true
			sb.WriteByte(b)
		case strings.IndexByte("{}[],:", b) >= 0:
			ws()
			sb.WriteByte(b)
			ws()
		default:
			sb.WriteByte(b)
		}
	}
	return gen.New(sb.String())
}

// wantEntry compares an entry's raw text with the argument it was made of.
func wantEntry(c *C, what string, i int, raw string, arg interface{}) {
	bad := func() { c.Failf("%s: entry %d is %s, made of %T %v", what, i, clipS(raw), arg, arg) }
	switch v := arg.(type) {
	case string:
		if raw != storedString(v) && !(refjson.IsStringContent(v) && raw == `"`+v+`"`) {
			bad()
		}
	case bool:
		if raw != strconv.FormatBool(v) {
			bad()
		}
	case float64:
		if f, err := strconv.ParseFloat(raw, 64); err != nil || math.Float64bits(f) != math.Float64bits(v) {
			bad()
		}
	case float32:
		if f, err := strconv.ParseFloat(raw, 32); err != nil || math.Float32bits(float32(f)) != math.Float32bits(v) {
			bad()
		}
	case []byte:
		if raw != string(v) {
			bad()
		}
	default:
		if raw != fmt.Sprint(v) {
			bad()
		}
	}
}

// readsBack chooses the entries that are read back with Get: all, or of many
// the first and last, the powers of two, and some others.
func readsBack(i, n int) bool {
	return n <= 600 || i < 20 || i >= n-5 || i&(i-1) == 0 || i*40/n != (i-1)*40/n
}

func checkArray(c *C, what string, out []byte, args []interface{}) {
	root, err := refjson.Parse(out)
	if err != nil || root.Kind != refjson.Arr {
		c.Failf("%s of %q gives %q, not an array", what, fmt.Sprint(args), clipS(string(out)))
	}
	if len(root.Kids) != len(args) {
		c.Failf("%s of %d arguments gives %d elements: %q", what, len(args), len(root.Kids), clipS(string(out)))
	}
	for i, k := range root.Kids {
		wantEntry(c, what, i, k.Raw(out), args[i])
		if !readsBack(i, len(args)) {
			continue
		}
		got, err := jin.Get(out, strconv.Itoa(i))
		if err != nil || string(got) != k.Text(out) {
			c.Failf("%s: Get %d of %q = %q, %v", what, i, clipS(string(out)), clipS(string(got)), err)
		}
	}
}

func checkObject(c *C, what string, out []byte, keys []string, args []interface{}, ordered bool) {
	root, err := refjson.Parse(out)
	if err != nil || root.Kind != refjson.Obj {
		c.Failf("%s gives %q, not an object", what, clipS(string(out)))
	}
	if len(root.Kids) != len(keys) {
		c.Failf("%s of %d keys gives %d members: %q", what, len(keys), len(root.Kids), clipS(string(out)))
	}
	for i, k := range keys {
		n := root.Kids[i]
		if !ordered {
			n = root.Step(k)
		}
		if n == nil || n.Key != k {
			c.Failf("%s: %q has no key %q at its place %d", what, clipS(string(out)), k, i)
		}
		wantEntry(c, what, i, n.Raw(out), args[i])
		if !readsBack(i, len(keys)) {
			continue
		}
		got, err := jin.Get(out, k)
		if err != nil || string(got) != n.Text(out) {
			c.Failf("%s: Get %q of %q = %q, %v", what, k, clipS(string(out)), clipS(string(got)), err)
		}
	}
}

// drawAny draws an argument of MakeArray or MakeJson.
func drawAny(c *C) interface{} {
	switch c.N(15) {
	case 0:
		return int(drawInt64(c))
	case 1:
		return int32(drawInt64(c))
	case 2:
		return drawInt64(c)
	case 3:
		return uint(drawUint64(c))
	case 4:
		return drawUint64(c)
	case 5:
		return drawFloat(c)
	case 6:
		f := float32(drawFloat(c))
		if math.IsInf(float64(f), 0) {
			f = 1.5
		}
		return f
	case 7:
		return c.N(2) == 1
	case 8:
		return int8(drawInt64(c))
	case 9:
		return int16(drawInt64(c))
	case 10:
		return uint8(drawUint64(c))
	case 11:
		return uint16(drawUint64(c))
	case 12:
		return uint32(drawUint64(c))
	}
	return drawStr(c)
}

// drawKeys draws distinct raw keys.
func drawKeys(c *C, max int) []string {
	n := c.Size(max)
	ctr := c.Mark()
	var out []string
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		c.BeginItem(ctr)
		k := gen.Key(c)
		for used[k] {
			k += "_"
		}
		used[k] = true
		out = append(out, k)
		c.End()
	}
	return out
}

func seen(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// many draws how many times a drawn list is repeated: once, or now and then
// often enough to outgrow small buffers and counters.
func many(c *C) int {
	if c.N(50) < 49 {
		return 1
	}
	return []int{3, 9, 40, 130, 300}[c.N(5)]
}

func runBuild(c *C) {
	a, o := jin.MakeEmptyArray(), jin.MakeEmptyJson()
	if string(a) != "[]" || string(o) != "{}" {
		c.Failf("MakeEmptyArray gives %q, MakeEmptyJson %q", a, o)
	}
	deface(a)
	deface(o)
	n := c.Size(12)
	which := c.N(9)
	size, long := 400, false
	if c.Giant > 0 { // a long list, or a long string
		size, long = c.Giant, c.N(3) == 2
		if !long {
			c.Giant = 0
		}
	}
	many := func(c *C) int {
		if long {
			return 1
		}
		if size > 400 {
			if which > 5 && size > 2000 {
				return 2000
			}
			return size
		}
		return many(c)
	}
	if n > 1 {
		c.NonTrivial()
	}
	ctr := c.Mark() - 1
	var args []interface{}
	var strs []string
	var out []byte
	defer func() { deface(out) }()
	item := func(f func()) {
		c.BeginItem(ctr)
		f()
		c.End()
	}
	switch which {
	case 0:
		for i := 0; i < n; i++ {
			item(func() { args = append(args, drawAny(c)) })
		}
		one := args
		for k := many(c); k > 1 && len(args) < size; k-- {
			args = append(args, one...)
		}
		c.Note("MakeArray %#v", args)
		out = jin.MakeArray(args...)
		checkArray(c, "MakeArray", out, args)
	case 1:
		for i := 0; i < n; i++ {
			item(func() { strs = append(strs, drawStr(c)) })
		}
		one := strs
		for k := many(c); k > 1 && len(strs) < size; k-- {
			strs = append(strs, one...)
		}
		for _, s := range strs {
			args = append(args, s)
		}
		c.Note("MakeArrayString %q", strs)
		out = jin.MakeArrayString(strs)
		checkArray(c, "MakeArrayString", out, args)
	case 2:
		var l []int
		for i := 0; i < n; i++ {
			item(func() { l = append(l, int(drawInt64(c))) })
			args = append(args, l[i])
		}
		one := l
		for k := many(c); k > 1 && len(l) < size; k-- {
			l = append(l, one...)
			for _, v := range one {
				args = append(args, v)
			}
		}
		c.Note("MakeArrayInt %v", l)
		out = jin.MakeArrayInt(l)
		checkArray(c, "MakeArrayInt", out, args)
		if got, err := jin.GetIntArray(out); err != nil || fmt.Sprint(got) != fmt.Sprint(append([]int{}, l...)) {
			c.Failf("MakeArrayInt %v reads back as %v, %v", l, got, err)
		}
	case 3:
		var l []bool
		for i := 0; i < n; i++ {
			item(func() { l = append(l, c.N(2) == 1) })
			args = append(args, l[i])
		}
		one := l
		for k := many(c); k > 1 && len(l) < size; k-- {
			l = append(l, one...)
			for _, v := range one {
				args = append(args, v)
			}
		}
		c.Note("MakeArrayBool %v", l)
		out = jin.MakeArrayBool(l)
		checkArray(c, "MakeArrayBool", out, args)
	case 4:
		var l []float64
		for i := 0; i < n; i++ {
			item(func() { l = append(l, drawFloat(c)) })
			args = append(args, l[i])
		}
		one := l
		for k := many(c); k > 1 && len(l) < size; k-- {
			l = append(l, one...)
			for _, v := range one {
				args = append(args, v)
			}
		}
		c.Note("MakeArrayFloat %v", l)
		out = jin.MakeArrayFloat(l)
		checkArray(c, "MakeArrayFloat", out, args)
	case 5:
		var l [][]byte
		for i := 0; i < n; i++ {
			item(func() { l = append(l, []byte(gen.Value(c))) })
			args = append(args, l[i])
		}
		one := l
		for k := many(c); k > 1 && len(l) < size; k-- {
			l = append(l, one...)
			for _, v := range one {
				args = append(args, v)
			}
		}
		c.Note("MakeArrayBytes %q", l)
		out = jin.MakeArrayBytes(l...)
		checkArray(c, "MakeArrayBytes", out, args)
	case 6, 7, 8:
		keys := drawKeys(c, 8)
		for range keys {
			c.Begin()
			if which == 6 {
				args = append(args, drawAny(c))
			} else {
				strs = append(strs, drawStr(c))
				args = append(args, strs[len(strs)-1])
			}
			c.End()
		}
		if k := many(c); len(keys) > 0 {
			for n := len(keys); k > 1; k-- {
				if key := "more" + strconv.Itoa(k); !seen(keys, key) {
					keys = append(keys, key)
					args = append(args, args[k%n])
					if which != 6 {
						strs = append(strs, strs[k%n])
					}
				}
			}
		}
		c.Note("%s %q %#v", []string{"MakeJson", "MakeJsonString", "MakeJsonWithMap"}[which-6], keys, args)
		extra := c.Weighted(80, 10, 10)
		switch which {
		case 6:
			if extra == 1 {
				args = append(args, 1)
			} else if extra == 2 {
				keys = append(keys, "zz")
			}
			out = jin.MakeJson(keys, args)
			if extra > 0 {
				if out != nil {
					c.Failf("MakeJson of %d keys and %d values gives %q, want nil", len(keys), len(args), out)
				}
				return
			}
			checkObject(c, "MakeJson", out, keys, args, true)
		case 7:
			if extra == 1 {
				strs = append(strs, "x")
			} else if extra == 2 {
				keys = append(keys, "zz")
			}
			out = jin.MakeJsonString(keys, strs)
			if extra > 0 {
				if out != nil {
					c.Failf("MakeJsonString of %d keys and %d values gives %q, want nil", len(keys), len(strs), out)
				}
				return
			}
			checkObject(c, "MakeJsonString", out, keys, args, true)
		case 8:
			m := map[string]string{}
			for i, k := range keys {
				m[k] = strs[i]
			}
			out = jin.MakeJsonWithMap(m)
			checkObject(c, "MakeJsonWithMap", out, keys, args, false)
		}
	}
}

// schemeModel is the reference of a Scheme.
type schemeModel struct{ cur, orig []string }

func (m *schemeModel) find(k string) int {
	for i, x := range m.cur {
		if x == k {
			return i
		}
	}
	return -1
}

func (m *schemeModel) add(k string) bool {
	if m.find(k) >= 0 {
		return false
	}
	m.cur = cat(m.cur, k)
	return true
}

func (m *schemeModel) remove(k string) bool {
	i := m.find(k)
	if i < 0 {
		return false
	}
	m.cur = cat(m.cur[:i], m.cur[i+1:]...)
	return true
}

// runRepeated runs a history on a scheme made with repeated keys: Remove may
// take one of them away, the first, or all of them.
func runRepeated(c *C) {
	pool := []string{"a", "b", "c", "ab", ""}[:c.Range(2, 5)]
	var start []string
	for n := c.Range(2, 6); n > 0; n-- {
		start = append(start, pool[c.N(len(pool))])
	}
	s, m := jin.MakeScheme(cat(start)...), &schemeModel{start, start}
	c.Note("MakeScheme %q", start)
	ctr := c.Mark()
	for n := c.Range(1, 8); n > 0; n-- {
		c.BeginItem(ctr)
		k := pool[c.N(len(pool))]
		switch c.Weighted(30, 40, 15, 15) {
		case 0:
			c.Note("Add %q", k)
			if got := s.Add(k); got != m.add(k) {
				c.Failf("Add %q = %v with keys %q", k, got, m.cur)
			}
		case 1:
			c.Note("Remove %q", k)
			old := m.cur
			got, want := s.Remove(k), m.remove(k)
			if got != want {
				c.Failf("Remove %q = %v with keys %q", k, got, old)
			}
			all := []string{}
			for _, x := range old {
				if x != k {
					all = append(all, x)
				}
			}
			if len(all) < len(old)-1 {
				c.NonTrivial()
			}
			if sameStrings(s.GetCurrentKeys(), all) {
				m.cur = all
			}
		case 2:
			c.Note("Save")
			s.Save()
			m.orig = m.cur
		case 3:
			c.Note("Restore")
			s.Restore()
			m.cur = m.orig
		}
		if cur, orig := s.GetCurrentKeys(), s.GetOriginalKeys(); !sameStrings(cur, m.cur) || !sameStrings(orig, m.orig) {
			c.Failf("the scheme has keys %q and original %q, want %q and %q", cur, orig, m.cur, m.orig)
		}
		c.End()
	}
}

// runSchemes runs a history on 1 to 3 schemes.
func runSchemes(c *C, max int, tiny bool) {
	var ss []*jin.Scheme
	var ms []*schemeModel
	pool := []string{"a", "b", "c", "d", "e"}
	ns := 1
	if tiny {
		pool = pool[:3]
		start := pool[:c.N(4)]
		ss, ms = append(ss, jin.MakeScheme(start...)), append(ms, &schemeModel{start, start})
		c.Note("MakeScheme %q", start)
	} else {
		ns = c.Range(1, 3)
		pool = append(pool, drawKeys(c, 4)...)
		for c.N(3) == 2 {
			pool = append(pool, gen.Kin(c, pool[c.N(len(pool))]))
		}
		k := many(c) / 3
		if c.Giant > 0 {
			k = c.Giant + c.N(c.Giant)
			c.Giant = 0
		}
		for ; k > 0; k-- {
			pool = append(pool, "k"+strconv.Itoa(k))
		}
		seen := map[string]bool{}
		var u []string
		for _, k := range pool {
			if !seen[k] {
				seen[k] = true
				u = append(u, k)
			}
		}
		pool = u
		start := make([]string, 0, 16) // shared by the schemes, with room behind it
		start = append(start, pool[:c.N(len(pool)+1)]...)
		for i := 0; i < ns; i++ {
			l := start[:len(start)-c.N(2)*len(start)/2]
			ss, ms = append(ss, jin.MakeScheme(l...)), append(ms, &schemeModel{cat(l), cat(l)})
			c.Note("MakeScheme %q", l)
		}
	}
	check := func(what string) {
		for i, s := range ss {
			m := ms[i]
			if cur, orig := s.GetCurrentKeys(), s.GetOriginalKeys(); !sameStrings(cur, m.cur) || !sameStrings(orig, m.orig) {
				c.Failf("after %s scheme %d has keys %q and original %q, want %q and %q", what, i, cur, orig, m.cur, m.orig)
			}
		}
	}
	make1 := func(i int, extra int, vals func() interface{}) {
		m := ms[i]
		var args []interface{}
		var strs []string
		for range m.cur {
			v := vals()
			args = append(args, v)
			strs = append(strs, fmt.Sprint(v))
		}
		if extra == 1 {
			args, strs = append(args, 1), append(strs, "1")
		} else if extra == 2 && len(args) > 0 {
			args, strs = args[1:], strs[1:]
		} else {
			extra = 0
		}
		a, b := ss[i].MakeJson(args...), ss[i].MakeJsonString(strs...)
		if extra > 0 {
			if a != nil || b != nil {
				c.Failf("a scheme of %q makes %q and %q of %d values, want nil", m.cur, a, b, len(args))
			}
			return
		}
		checkObject(c, "Scheme.MakeJson", a, m.cur, args, true)
		sargs := make([]interface{}, len(strs))
		for i, s := range strs {
			sargs[i] = s
		}
		checkObject(c, "Scheme.MakeJsonString", b, m.cur, sargs, true)
	}
	check("MakeScheme")
	n := max
	ctr := -1
	if !tiny {
		n = c.Range(1, max)
		ctr = c.Mark()
	}
	changed := 0
	for j := 0; j < n; j++ {
		c.BeginItem(ctr)
		i := 0
		if ns > 1 {
			i = c.N(ns)
		}
		s, m := ss[i], ms[i]
		var op int
		if tiny {
			op = c.N(4)
		} else {
			op = c.Weighted(35, 30, 12, 13, 10)
		}
		switch op {
		case 0:
			k := pool[c.N(len(pool))]
			c.Note("%d.Add %q", i, k)
			got, want := s.Add(k), m.add(k)
			if got != want {
				c.Failf("Add %q = %v with keys %q", k, got, m.cur)
			}
			if want {
				changed++
			}
		case 1:
			k := pool[c.N(len(pool))]
			if !tiny && len(m.cur) > 0 && c.N(2) == 1 {
				k = m.cur[c.N(len(m.cur))]
			}
			c.Note("%d.Remove %q", i, k)
			old := m.cur
			got, want := s.Remove(k), m.remove(k)
			if got != want {
				c.Failf("Remove %q = %v with keys %q", k, got, old)
			}
			if want {
				changed++
			}
		case 2:
			c.Note("%d.Save", i)
			s.Save()
			m.orig = m.cur
		case 3:
			c.Note("%d.Restore", i)
			s.Restore()
			m.cur = m.orig
		case 4:
			c.Note("%d.Make", i)
			make1(i, c.Weighted(70, 15, 15), func() interface{} { return drawAny(c) })
		}
		check(fmt.Sprintf("step %d", j))
		c.End()
	}
	for i := range ss {
		make1(i, 0, func() interface{} { return 1 })
	}
	if changed > 1 {
		c.NonTrivial()
	}
}

func checkScheme(c *C, d *gen.Doc, keys []string) {
	s := jin.MakeScheme(keys...)
	missing := 0
	for _, k := range keys {
		if d.Root.Step(k) == nil {
			missing++
		}
	}
	all := missing == 0
	if got := s.Check(d.Text); got != all {
		c.Failf("Check = %v with scheme %q, want %v", got, keys, all)
	}
	abs := all && len(keys) == len(d.Root.Kids)
	if got := s.CheckAbs(d.Text); got != abs {
		c.Failf("CheckAbs = %v with scheme %q, want %v", got, keys, abs)
	}
	c.LabelIf(abs, "exact fit")
	c.LabelIf(all && !abs, "document has more keys")
	c.LabelIf(!all, "document lacks a key")
	want := &refjson.Val{Kind: refjson.Obj}
	for _, k := range keys {
		v := refjson.MustVal(`""`)
		if n := d.Root.Step(k); n != nil {
			v = n.Val(d.Text)
		}
		want.AddKeyValue(k, v, nil)
	}
	cmp := func(what string, out []byte) {
		v, err := refjson.ParseVal(out)
		if err != nil {
			c.Failf("%s with scheme %q gives malformed %q", what, keys, clipS(string(out)))
		}
		if !v.Equal(want) {
			c.Failf("%s with scheme %q gives %q, want the equivalent of %s", what, keys, clipS(string(out)), clipS(want.String()))
		}
		for _, k := range keys {
			g, err := jin.Get(out, k)
			if n := d.Root.Step(k); n != nil {
				w := n.Text(d.Text)
				if err != nil || string(g) != w {
					c.Failf("%s with scheme %q: %q reads %q, %v, want %q", what, keys, k, clipS(string(g)), err, clipS(w))
				}
			} else if err != nil || string(g) != "" {
				c.Failf("%s with scheme %q: %q reads %q, %v, want the empty string", what, keys, k, clipS(string(g)), err)
			}
		}
	}
	out, err := s.MutateJson(d.Text)
	if err != nil {
		c.Failf("MutateJson with scheme %q fails: %v", keys, err)
	}
	cmp("MutateJson", out)
	out, err = s.MutateJsonAbs(d.Text)
	if all {
		if err != nil {
			c.Failf("MutateJsonAbs with scheme %q fails: %v", keys, err)
		}
		cmp("MutateJsonAbs", out)
	} else if err == nil {
		c.Failf("MutateJsonAbs with scheme %q gives %q though the document lacks a key", keys, clipS(string(out)))
	}
	if !sameStrings(s.GetCurrentKeys(), keys) || !sameStrings(s.GetOriginalKeys(), keys) {
		c.Failf("checking and mutating changes the scheme %q to %q", keys, s.GetCurrentKeys())
	}
}

// drawScheme draws distinct keys: the object's in another order, some left out,
// some added.
func drawScheme(c *C, root *refjson.Node) []string {
	var keys []string
	for _, k := range root.Kids {
		keys = append(keys, k.Key)
	}
	for i := len(keys) - 1; i > 0; i-- {
		if j := i - c.N(i+1); j != i {
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	for len(keys) > 0 && c.N(3) == 2 {
		i := c.N(len(keys))
		keys = cat(keys[:i], keys[i+1:]...)
	}
	if len(keys) > 0 && c.N(4) == 3 { // take a similar key for one
		i := c.N(len(keys))
		if k := gen.Kin(c, keys[i]); root.Step(k) == nil {
			keys = cat(keys[:i], cat([]string{k}, keys[i+1:]...)...)
		}
	}
	for c.N(3) == 2 {
		var k string
		switch c.N(3) {
		case 0:
			k = gen.Key(c)
		case 1: // a key from further down
			all := root.All()
			if n := all[c.N(len(all))]; n.Parent != nil {
				k = n.Label()
			}
		case 2:
			if len(root.Kids) > 0 {
				k = gen.Kin(c, root.Kids[c.N(len(root.Kids))].Key)
			}
		}
		dup := false
		for _, x := range keys {
			dup = dup || x == k
		}
		if !dup {
			i := c.N(len(keys) + 1)
			keys = cat(keys[:i], cat([]string{k}, keys[i:]...)...)
		}
	}
	return keys
}

func init() {
	register(&engine.Prop{ID: "C24",
		Rule: "a random document (some scalar ones) in any whitespace; Flatten against the tokens of the reference parser, twice, and every value or a sample read before and after. Part repeated: documents with repeated keys, at the values that no earlier member hides. Non-trivial: there is whitespace to remove and 3 values or more besides the root; in repeated: a key is repeated.",
		Parts: []engine.Part{
			{Name: "random", Quick: 60000, Thorough: 2000000, Run: func(c *C) {
				d := formatDoc(c)
				all := docCase(c, d)
				if len(all) > 3 && flat(d.Root, d.Text) != string(d.Text) {
					c.NonTrivial()
				}
				checkFlatten(c, d, sampleNodes(c, all, 8))
			}},
			{Name: "respaced", Quick: 30000, Thorough: 1000000, Run: func(c *C) {
				d := respace(c, gen.SmallDoc(c))
				all := docCase(c, d)
				if len(all) > 3 && flat(d.Root, d.Text) != string(d.Text) {
					c.NonTrivial()
				}
				checkFlatten(c, d, all)
			}},
			{Name: "repeated", Quick: 20000, Thorough: 600000, Run: func(c *C) {
				d, nodes := gen.DupDoc(c)
				docCase(c, d)
				if len(nodes) < len(d.Root.All()) {
					c.NonTrivial()
				}
				checkFlatten(c, d, sampleNodes(c, nodes, 8))
			}},
			{Name: "small", Exhaustive: true, Quick: 60000, Thorough: 3000000, Run: func(c *C) {
				d := tinyArgs(c)
				all := docCase(c, d)
				if len(all) > 3 {
					c.NonTrivial()
				}
				checkFlatten(c, d, all)
			}},
		}})
	register(&engine.Prop{ID: "C25",
		Rule: "a random document (some scalar ones) in any whitespace; Indent against the reference parser: well-formed, same tokens, each entry behind a newline and its depth in tabs, idempotent, same for differently spaced forms. Part repeated: documents with repeated keys, at the values that no earlier member hides. Non-trivial: 3 values or more besides the root; in repeated: a key is repeated.",
		Parts: []engine.Part{
			{Name: "random", Quick: 40000, Thorough: 1500000, Run: func(c *C) {
				d := formatDoc(c)
				all := docCase(c, d)
				if len(all) > 3 {
					c.NonTrivial()
				}
				checkIndent(c, d)
			}},
			{Name: "respaced", Quick: 20000, Thorough: 800000, Run: func(c *C) {
				d := gen.SmallDoc(c)
				e := respace(c, d)
				all := docCase(c, e)
				if len(all) > 3 {
					c.NonTrivial()
				}
				checkIndent(c, e)
				if a, b := jin.Indent(d.Text), jin.Indent(e.Text); !bytes.Equal(a, b) {
					c.Failf("Indent of differently spaced forms gives %q and %q", clipS(string(a)), clipS(string(b)))
				}
			}},
			{Name: "repeated", Quick: 20000, Thorough: 600000, Run: func(c *C) {
				d, nodes := gen.DupDoc(c)
				docCase(c, d)
				if len(nodes) < len(d.Root.All()) {
					c.NonTrivial()
				}
				checkIndent(c, d)
			}},
			{Name: "small", Exhaustive: true, Quick: 60000, Thorough: 3000000, Run: func(c *C) {
				d := tinyArgs(c)
				all := docCase(c, d)
				if len(all) > 3 {
					c.NonTrivial()
				}
				checkIndent(c, d)
			}},
		}})
	register(&engine.Prop{ID: "C26",
		Rule: "a builder and up to 12, sometimes 400, arguments of its types (boundary and random numbers, hostile and look-alike strings, JSON values), also none and unequal list lengths; the result against the reference parser, entry by entry. Non-trivial: 2 entries or more asked for.",
		Parts: []engine.Part{{Name: "build", Quick: 150000, Thorough: 5000000, Run: runBuild},
			{Name: "giant", Heavy: true, Quick: 1200, Thorough: 6000, Run: func(c *C) {
				c.Giant = []int{1 << 10, 1 << 12, 1 << 16}[c.N(3)]
				runBuild(c)
			}}}})
	register(&engine.Prop{ID: "C27",
		Rule: "1 to 3 schemes, also made from one shared slice, and up to 14 (thorough: 40) calls on them against a reference model, all key lists compared after each call, and instantiation; plus every history of 4 (thorough: 6) calls on a 3-key universe. Part repeated: a scheme made of repeated keys, of which Remove takes one or all. Non-trivial: 2 successful Add or Remove calls or more; in repeated: a Remove of a repeated key.",
		Parts: []engine.Part{
			{Name: "history", Quick: 60000, Thorough: 2000000, Run: func(c *C) { runSchemes(c, histLen(c), false) }},
			{Name: "small", Exhaustive: true, Quick: 400000, Thorough: 8000000, Run: func(c *C) {
				n := 4
				if c.Tier == "thorough" {
					n = 6
				}
				runSchemes(c, n, true)
			}},
			{Name: "repeated", Quick: 60000, Thorough: 2000000, Run: runRepeated},
			{Name: "giant", Heavy: true, Quick: 400, Thorough: 2000, Run: func(c *C) {
				c.Giant = []int{1 << 8, 1 << 10, 1 << 11}[c.N(3)]
				runSchemes(c, histLen(c), false)
			}},
		}})
	register(&engine.Prop{ID: "C28",
		Rule: "a random object document and a scheme drawn from its keys (permuted, some left out) with keys from elsewhere added; Check, CheckAbs, MutateJson and MutateJsonAbs against the reference tree. Non-trivial: the scheme has 2 keys or more.",
		Parts: []engine.Part{
			{Name: "random", Quick: 60000, Thorough: 2000000, Run: func(c *C) {
				cfg := gen.RandomConfig(c)
				d := gen.DocOf(c, cfg, 0)
				docCase(c, d)
				keys := drawScheme(c, d.Root)
				c.Note("scheme %q", keys)
				if len(keys) > 1 {
					c.NonTrivial()
				}
				checkScheme(c, d, keys)
			}},
			{Name: "small", Exhaustive: true, Quick: 1000000, Thorough: 3000000, Run: func(c *C) {
				d := tinyArgs(c)
				if d.Root.Kind != refjson.Obj {
					c.Discard()
				}
				docCase(c, d)
				var keys []string
				for _, k := range []string{"a", "b", "q"} {
					if c.N(2) == 1 {
						keys = append(keys, k)
					}
				}
				if c.N(2) == 1 {
					for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
						keys[i], keys[j] = keys[j], keys[i]
					}
				}
				c.Note("scheme %q", keys)
				if len(keys) > 1 {
					c.NonTrivial()
				}
				checkScheme(c, d, keys)
			}},
		}})
}
