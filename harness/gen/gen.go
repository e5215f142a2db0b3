// Package gen generates JSON documents, paths, keys and values from choices.
package gen

import (
	"bytes"
	"encoding/json"
	"strconv"
	"strings"

	"jinverif/engine"
	"jinverif/refjson"
)

// Doc is a generated well-formed document with its reference tree.
type Doc struct {
	Text []byte
	Root *refjson.Node
	Tiny bool // from an enumerated space
}

// New makes a Doc of a text the harness knows to be JSON.
func New(text string) *Doc {
	b := []byte(text)
	n, err := refjson.Parse(b)
	if err != nil || !Valid(b) {
		panic("harness error: generated text is not JSON: " + text)
	}
	return &Doc{Text: b, Root: n}
}

// Valid asks encoding/json, which refuses what is nested deeper than 10 000.
func Valid(b []byte) bool {
	if json.Valid(b) {
		return true
	}
	n, err := refjson.Parse(b)
	return err == nil && deeper(n, 10000)
}

func deeper(n *refjson.Node, max int) bool {
	if n.Kind != refjson.Obj && n.Kind != refjson.Arr {
		return false
	}
	if max == 0 {
		return true
	}
	for _, k := range n.Kids {
		if deeper(k, max-1) {
			return true
		}
	}
	return false
}

// Val is the document as a text-independent tree.
func (d *Doc) Val() *refjson.Val { return d.Root.Val(d.Text) }

// key styles
const (
	keyTiny = iota
	keyWord
	keyNumeric
	keyHostile
	keyEscape
	keyUnicode
	keyMixed
	nKeyModes
)

// whitespace styles
const (
	wsCompact = iota
	wsLight
	wsPretty
	wsPrettyCR
	wsTabs
	wsChaos
	nWS
)

// Config bounds a generated document.
type Config struct {
	Budget   int // values besides the root
	MaxDepth int
	Wide     int // largest container
	WS       int
	Keys     int
	LongStr  bool
	NoEmptyK bool // no empty keys
	Chain    bool // favour depth
	Flat     bool // favour width
	Fill     int  // elements or members added to one container without a choice each
	FillAt   int  // which container, in order of appearance
	FillEnd  bool // after its other elements rather than before
	FillKind int  // what they look like
	Wrap     int  // containers around the document
	WrapKind int
	Dup      bool // objects may repeat a key
}

type g struct {
	c    *engine.Case
	cfg  Config
	left int
	sb   strings.Builder
	lvl  int
	seen int      // containers so far
	keys []string // keys so far
}

// RandomConfig draws a document profile.
func RandomConfig(c *engine.Case) Config {
	cfg := Config{MaxDepth: 7, Wide: 8}
	cfg.WS = c.Weighted(22, 22, 14, 8, 8, 26)
	cfg.Keys = c.Weighted(34, 14, 10, 14, 10, 8, 10)
	switch c.Weighted(490, 220, 90, 90, 40, 60, 10) {
	case 0:
		cfg.Budget = c.Range(2, 18)
	case 1:
		cfg.Budget = c.Range(6, 40)
	case 2: // deep
		cfg.Budget, cfg.MaxDepth, cfg.Chain = c.Range(10, 60), 48, true
	case 3: // wide
		cfg.Budget, cfg.Wide, cfg.Flat = c.Range(10, 60), 64, true
	case 4: // big
		cfg.Budget, cfg.MaxDepth, cfg.Wide = c.Range(60, 260), 9, 24
	case 5:
		cfg.Budget, cfg.LongStr = c.Range(2, 16), true
	case 6: // past the sizes at which small counters and buffers end
		cfg.Budget = c.Range(3, 10)
		if c.N(3) < 2 {
			cfg.Fill = []int{pow(c, 3, 8), 33, 70, 130, 257, 300, 1030}[c.Weighted(10, 20, 20, 20, 20, 20, 4)]
			cfg.FillAt, cfg.FillEnd, cfg.FillKind = c.N(4), c.N(2) == 1, c.N(len(fillers))
			if cfg.FillKind == 3 && cfg.Fill > 300 {
				cfg.Fill = 300
			}
		} else {
			cfg.Wrap = []int{pow(c, 3, 8), 33, 66, 130, 257, 300}[c.Weighted(10, 20, 20, 20, 20, 10)]
			cfg.WrapKind = c.N(6)
		}
	}
	return cfg
}

// fillers are the filling elements by number, %d; one of them long enough to take a document past 64 KiB.
var fillers = []func(i int) string{
	func(i int) string { return strconv.Itoa(i) },
	func(i int) string { return `"f` + strconv.Itoa(i) + `"` },
	func(i int) string { return []string{"[]", "{}", `"\\"`, "null", `[1,"]"]`, `{"a":"}"}`, `""`}[i%7] },
	func(i int) string {
		if i == 5 {
			return `"` + strings.Repeat("x,]", 22000) + `\\"`
		}
		return `"` + strings.Repeat("x,]", 40) + `\\"`
	},
	func(i int) string { return `{"a":` + strconv.Itoa(i) + `}` },
}

// fill writes the filling of a container that has n other elements.
func (x *g) fill(obj bool, used map[string]bool, first bool) {
	for i := 0; i < x.cfg.Fill; i++ {
		if i > 0 || !first {
			x.sb.WriteByte(',')
			if x.cfg.WS != wsCompact {
				x.sb.WriteByte(' ')
			}
		}
		if obj {
			k := "f" + strconv.Itoa(i)
			for used[k] {
				k += "_"
			}
			used[k] = true
			x.sb.WriteString(`"` + k + `":`)
		}
		x.sb.WriteString(fillers[x.cfg.FillKind](i))
	}
}

// wrap puts the document inside many containers.
func wrap(text string, cfg Config) string {
	open := []string{"[", `{"a":`, `{"b":1,"a":[`, "[ 0 , ", "[0,", `{"b":1,"a":`}[cfg.WrapKind]
	cl := []string{"]", "}", "]}", " ]", `,"x",2]`, `,"c":{},"d":"}"}`}[cfg.WrapKind]
	n := cfg.Wrap
	if cfg.WrapKind == 2 {
		n /= 2
	}
	return strings.Repeat(open, n) + text + strings.Repeat(cl, n)
}

// RandomDoc draws a document with an object or array root.
func RandomDoc(c *engine.Case) *Doc {
	if c.Giant == 0 && c.N(60) == 59 {
		return gridDoc(c)
	}
	return DocOf(c, RandomConfig(c), -1)
}

// joints are what a path may be joined with to name a value in a cache or a map.
var joints = []string{"", ".", "/", ",", ":", "|", " ", "-", "_", "0"}

// gridDoc draws containers in a container, all with the same labels, whose
// paths are alike when their steps are joined: [1][11] and [11][1], a.a.a.
func gridDoc(c *engine.Case) *Doc {
	c.Begin()
	defer c.End()
	arrays, n := c.N(3), c.Range(2, 5)
	sep, unit := joints[c.N(len(joints))], []string{"a", "1", "k0", "é", "0"}[c.N(5)]
	if c.N(2) == 1 && arrays > 0 {
		n = 11 + c.N(3)
	}
	blank := []string{"", " ", "\n\t"}[c.N(3)]
	level := func(arr bool, inner func(i int) string) string {
		b := "{"
		if arr {
			b = "["
		}
		k := unit
		for i := 0; i < n; i++ {
			if i > 0 {
				b += "," + blank
			}
			if !arr {
				b += `"` + k + `":`
				k += sep + unit
			}
			b += inner(i)
		}
		if arr {
			return b + "]"
		}
		return b + "}"
	}
	v := 0
	return New(level(arrays > 0, func(int) string {
		return level(arrays > 1, func(int) string {
			v++
			return []string{strconv.Itoa(v), `"` + strconv.Itoa(v) + `"`, "[" + strconv.Itoa(v) + "]", `{"a":` + strconv.Itoa(v) + "}"}[c.N(4)]
		})
	}))
}

// RootKind is 0 for an object, 1 for an array, -1 for either.
func DocOf(c *engine.Case, cfg Config, root int) *Doc {
	if c.Giant > 0 {
		n := c.Giant
		c.Giant = 0
		if c.GiantVal == 0 || c.N(2) > 0 {
			c.GiantVal = 0
			return giantDoc(c, n, root)
		}
	}
	x := &g{c: c, cfg: cfg, left: cfg.Budget}
	c.Begin()
	x.ws()
	kind := root
	if kind == -1 {
		kind = c.Weighted(60, 40)
	}
	if kind == 0 {
		x.object(0)
	} else {
		x.array(0)
	}
	x.ws()
	c.End()
	if cfg.Wrap > 0 && (root != 1 || cfg.WrapKind == 0 || cfg.WrapKind == 3 || cfg.WrapKind == 4) && (root != 0 || cfg.WrapKind == 1 || cfg.WrapKind == 2 || cfg.WrapKind == 5) {
		return New(wrap(x.sb.String(), cfg))
	}
	if c.N(40) == 39 {
		return New(padded(c, x.sb.String(), pow(c, 4, 11)))
	}
	return New(x.sb.String())
}

// giantDoc draws a document with one thing in it that is past size: a container, the depth, a string, a key or
// a run of whitespace.
func giantDoc(c *engine.Case, size, root int) *Doc {
	kind := c.Weighted(48, 13, 11, 11, 11, 6)
	if kind > 1 && size >= 1<<16 && c.N(4) == 3 {
		size = 1 << 20
	}
	n := size - 2 + c.N(6)
	if c.N(3) > 0 {
		n = size + 400 + c.N(size/3)
	}
	cfg := Config{MaxDepth: 3, Wide: 4, Budget: c.Range(2, 8), WS: []int{wsCompact, wsLight}[c.N(2)]}
	var text string
	switch kind {
	case 0:
		cfg.Fill, cfg.FillAt, cfg.FillEnd, cfg.FillKind = n, c.N(3), c.N(2) == 1, []int{0, 1, 2, 4}[c.N(4)]
		return DocOf(c, cfg, root)
	case 1: // encoding/json ends at 10 000
		cfg.Wrap, cfg.WrapKind = []int{400, 1030, 2050, 5010}[c.N(4)], c.N(6)
		if size <= 1<<11 && cfg.Wrap > 1030 {
			cfg.Wrap = 1030
		} else if size != 1<<16 && cfg.Wrap > 2050 { // what Walk and Indent give is quadratic in it
			cfg.Wrap = 2050
		}
		if size > 1<<15 {
			cfg.Wrap = 2 * cfg.Wrap
		} else if size < 1<<11 {
			cfg.Wrap = cfg.Wrap / 10
		}
		if root != -1 {
			cfg.WrapKind = []int{1, 0, 5, 4}[root+2*c.N(2)]
		}
		return DocOf(c, cfg, root)
	case 2:
		unit := []string{"x", `\\`, `\"`, "],", "é", "},{", every, every, every}[c.N(9)]
		text = `"` + strings.Repeat(unit, n/len(unit)+1) + `"`
		if c.N(2) == 0 {
			text = `"` + sparse(c, n) + `"`
		}
	case 3:
		text = `{"` + strings.Repeat([]string{"k", `\\`, `\"`, "a,"}[c.N(4)], n/2) + `":` + Value(c) + `,"z":0}`
	case 5: // of an exact size
		t := `[{"a":1},` + Value(c) + "," + Value(c) + "]"
		if root == 0 || root == -1 && c.N(2) == 0 {
			t = `{"a":[1],"b":` + Value(c) + `,"c":` + Value(c) + "}"
		}
		return New(padded(c, t, size-2+c.N(5)))
	case 4:
		ws := strings.Repeat([]string{" ", "\n", "\t", "\r\n"}[c.N(4)], n)
		text = []string{"[" + ws + "]", "[1," + ws + "2]", `{"a"` + ws + `:1,"b":2}`, `{"a":` + ws + `{},"b":[0]}`, `{` + ws + `"a":1}`}[c.N(5)]
	}
	a, b := Value(c), Value(c)
	if root == 1 || root == -1 && c.N(2) == 0 {
		return New([]string{"[" + text + "," + a + "," + b + "]", "[" + a + "," + text + "," + b + "]", "[" + a + "," + b + "," + text + "]"}[c.N(3)])
	}
	return New([]string{`{"a":` + text + `,"b":` + a + `,"c":` + b + "}", `{"a":` + a + `,"b":` + text + `,"c":` + b + "}", `{"a":` + a + `,"b":` + b + `,"c":` + text + "}"}[c.N(3)])
}

// every looks like an end or a beginning at any of its characters.
const every = `\",\" : \\ , [{}],\\\":1,{\"a\":[ ],\n`

// sparse draws the inside of a string of about n bytes: plain text with escapes
// and punctuation here and there, some of them at the multiples of powers of two.
func sparse(c *engine.Case, n int) string {
	var b []byte
	if c.N(2) == 0 { // escapes exactly some power of two apart
		unit := []string{`\"`, `\\\"`, `\\`, "é", `\" , `, " , "}[c.N(6)]
		gap := 1 << uint(6+c.N(8))
		if gap > n {
			gap = 128
		}
		b = append(b, strings.Repeat("x", gap-1+c.N(len(unit)+1)-c.N(2))...)
		for len(b) < n {
			b = append(append(b, unit...), strings.Repeat("x", gap-len(unit))...)
		}
		return string(b)
	}
	at := c.N(3) // how far the document is ahead of this string
	for len(b) < n {
		run := c.N(n/4 + 2)
		if c.N(3) > 0 {
			align := 1 << uint(6+c.N(8))
			if align > n {
				align = 64
			}
			run = align - (len(b)+at)%align + c.N(4) - 2
			if run < 0 {
				run = 0
			}
		}
		for i := 0; i < run && len(b) < n+n/2; i++ {
			b = append(b, 'x')
		}
		b = append(b, []string{`\"`, `\\`, `\\\"`, `\" , `, `\\\\`, "é", `\n`, ` , `, `\u0041`, "], [", `\" :  `}[c.N(11)]...)
	}
	return string(b)
}

// GiantStr draws a string, or the text of another value, of about the size.
func GiantStr(c *engine.Case, size int) string {
	n := size - 2 + c.N(6)
	if c.N(3) > 0 {
		n = c.N(2 * size)
	}
	unit := []string{"x", `\\`, `\"`, "],", "é", "},{", "1", "[1,2]", " ", `=\":`, `\n`}[c.N(11)]
	s := strings.Repeat(unit, n/len(unit)+1)
	if c.N(4) == 0 {
		s, unit = sparse(c, n), ""
	}
	switch c.N(6) {
	case 0:
		s = "[" + s + "]"
	case 1:
		s = `"` + s + `"`
	case 2:
		s = s[:len(s)-len(unit)] + frag(c)
	case 3:
		s = frag(c) + s
	}
	return s
}

// DupDoc draws a document whose objects may repeat keys, and returns with it
// the values that a path can address: those that no earlier member hides.
func DupDoc(c *engine.Case) (*Doc, []*refjson.Node) {
	cfg := Config{MaxDepth: 5, Wide: 6, Dup: true}
	cfg.WS = c.Weighted(22, 22, 14, 8, 8, 26)
	cfg.Keys = c.Weighted(40, 14, 10, 14, 8, 6, 8)
	cfg.Budget = c.Range(2, 24)
	d := DocOf(c, cfg, -1)
	var out []*refjson.Node
	var rec func(n *refjson.Node)
	rec = func(n *refjson.Node) {
		out = append(out, n)
		seen := map[string]bool{}
		for _, k := range n.Kids {
			if n.Kind == refjson.Obj {
				if seen[k.Key] {
					continue
				}
				seen[k.Key] = true
			}
			rec(k)
		}
	}
	rec(d.Root)
	return d, out
}

// SmallDoc draws a document of at most about a dozen values.
func SmallDoc(c *engine.Case) *Doc {
	cfg := Config{MaxDepth: 5, Wide: 6}
	cfg.WS = c.Weighted(22, 22, 14, 8, 8, 26)
	cfg.Keys = c.Weighted(40, 14, 10, 14, 8, 6, 8)
	cfg.Budget = c.Range(1, 12)
	return DocOf(c, cfg, -1)
}

// Value draws a value text without surrounding whitespace.
func Value(c *engine.Case) string {
	c.Begin()
	defer c.End()
	x := &g{c: c, cfg: Config{MaxDepth: 3, Wide: 4, Budget: 5}, left: 5}
	if c.GiantVal > 0 {
		n := c.GiantVal
		c.GiantVal = 0
		for n > 1<<7 && c.N(2) == 0 {
			n /= 2
		}
		return exact(c, 2*n-2+c.N(5))
	}
	if c.N(120) == 119 {
		return bigValue(c)
	}
	switch c.Weighted(40, 35, 25) {
	case 0:
		return x.scalar()
	case 1:
		x.cfg.WS = []int{wsCompact, wsLight, wsChaos}[c.Weighted(60, 20, 20)]
		x.cfg.Keys = c.N(nKeyModes)
		x.left = c.N(6)
		if c.N(2) == 0 {
			x.object(1)
		} else {
			x.array(1)
		}
		return x.sb.String()
	}
	return []string{"1", `"x"`, "true", "null", "{}", "[]", `""`, "[1]", `{"a":1}`, "-1.5", "0", "false", `[{}]`, `"{}"`, `"[]"`, `","`, `"]"`, `"a:b"`}[c.N(18)]
}

// pow draws a number at or next to a power of two, from 1<<lo to 1<<hi.
func pow(c *engine.Case, lo, hi int) int {
	return 1<<uint(lo+c.N(hi-lo+1)) + []int{0, -1, 1, 2, -2}[c.Weighted(40, 20, 20, 10, 10)]
}

// exact draws a value whose text has n bytes.
func exact(c *engine.Case, n int) string {
	if n < 12 {
		n = 12
	}
	switch c.N(6) {
	case 0:
		return "[" + strings.Repeat(" ", n-3) + "1]"
	case 1:
		return strings.Repeat("7", n)
	case 2:
		return `{"` + strings.Repeat("k", n-6) + `":0}`
	case 3:
		return `["` + strings.Repeat("x", n-4) + `"]`
	}
	return `"` + exactStr(c, n-2) + `"`
}

// exactStr draws string content of n bytes.
func exactStr(c *engine.Case, n int) string {
	f := frag(c)
	if len(f) > n {
		return strings.Repeat("x", n)
	}
	x := strings.Repeat(string("x ]}"[c.Weighted(70, 10, 10, 10)]), n-len(f))
	switch c.N(3) {
	case 0:
		return x
	case 1:
		return f + x
	}
	return x + f
}

// padded makes the text a size long, with spaces, if it is not longer already.
func padded(c *engine.Case, t string, n int) string {
	if len(t) >= n {
		return t
	}
	sp := strings.Repeat(" ", n-len(t))
	switch c.N(4) {
	case 0:
		return t + sp
	case 1:
		return sp + t
	case 2:
		i := strings.IndexAny(t, "[{") + 1
		return t[:i] + sp + t[i:]
	}
	i := strings.LastIndexAny(t, "]}")
	return t[:i] + sp + t[i:]
}

// bigValue draws a value past the sizes at which small buffers and counters end.
func bigValue(c *engine.Case) string {
	n := []int{20, 70, 130, 260, 1030, 4100}[c.Weighted(20, 20, 20, 20, 15, 5)]
	if c.N(3) == 0 {
		return exact(c, pow(c, 4, 12))
	}
	switch c.N(6) {
	case 0:
		return `"` + strings.Repeat([]string{"x", `\"`, "]", "},", `\\`, "é"}[c.N(6)], n) + `"`
	case 1:
		return "[" + strings.Repeat([]string{"1,", `"]",`, "[] , ", `{"a":1},`}[c.N(4)], n) + "0]"
	case 2:
		var sb strings.Builder
		for i := 0; i < n && i < 1100; i++ {
			sb.WriteString(`"k` + strconv.Itoa(i) + `":` + strconv.Itoa(i) + ",")
		}
		return "{" + sb.String() + `"a":"}"}`
	case 3:
		if n > 260 {
			n = 260
		}
		return strings.Repeat("[", n) + strings.Repeat("]", n)
	case 4:
		if n > 260 {
			n = 260
		}
		return strings.Repeat(`{"a":`, n) + `"}"` + strings.Repeat("}", n)
	}
	return "[" + strings.Repeat(" ", n) + "1" + strings.Repeat("\n", n) + "]"
}

// Scalar draws a scalar text.
func Scalar(c *engine.Case) string {
	x := &g{c: c}
	return x.scalar()
}

func (x *g) ws() {
	c := x.c
	switch x.cfg.WS {
	case wsLight:
		if c.N(3) == 1 {
			x.sb.WriteByte(' ')
		}
	case wsChaos:
		k := c.Weighted(450, 250, 150, 146, 4)
		if k == 3 {
			k = c.Range(3, 6)
		}
		if k == 4 { // a long run of one character
			x.sb.WriteString(strings.Repeat([]string{" ", "\n", "\t", "\r\n"}[c.N(4)], c.Range(20, 300)))
			return
		}
		for i := 0; i < k; i++ {
			x.sb.WriteByte(" \n\t\r"[c.N(4)])
		}
	}
}

// nl breaks the line in the pretty styles.
func (x *g) nl() {
	switch x.cfg.WS {
	case wsPretty:
		x.sb.WriteString("\n" + strings.Repeat("  ", x.lvl))
	case wsPrettyCR:
		x.sb.WriteString("\r\n" + strings.Repeat("    ", x.lvl))
	case wsTabs:
		x.sb.WriteString("\n" + strings.Repeat("\t", x.lvl))
	default:
		x.ws()
	}
}

func (x *g) count() int {
	c := x.c
	max := x.cfg.Wide
	if max > x.left {
		max = x.left
	}
	if max <= 0 {
		return 0
	}
	if x.cfg.Flat && x.lvl == 0 {
		return c.Range(max/2, max)
	}
	if x.cfg.Chain {
		m := 3
		if m > max {
			m = max
		}
		return 1 + c.N(m)
	}
	k := 0
	if x.lvl == 0 {
		k = c.Weighted(3, 9, 48, 40)
	} else {
		k = c.Weighted(12, 30, 38, 20)
	}
	switch k {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		m := 4
		if m > max {
			m = max
		}
		return c.Range(1, m)
	}
	return c.Range(1, max)
}

func (x *g) object(depth int) {
	x.sb.WriteByte('{')
	x.left--
	n := x.count()
	ctr := x.c.Mark()
	x.lvl++
	used := map[string]bool{}
	var own []string
	fill := x.cfg.Fill > 0 && x.seen == x.cfg.FillAt
	x.seen++
	if fill && !x.cfg.FillEnd {
		x.fill(true, used, true)
	}
	if n == 0 {
		x.ws()
	}
	for i := 0; i < n; i++ {
		x.c.BeginItem(ctr)
		if i > 0 || fill && !x.cfg.FillEnd {
			x.sb.WriteByte(',')
		}
		x.nl()
		k := x.key()
		if x.cfg.Dup && len(own) > 0 && x.c.N(3) > 0 {
			k = own[x.c.N(len(own))]
		} else {
			for used[k] {
				k += strconv.Itoa(i)
			}
		}
		own = append(own, k)
		used[k] = true
		x.sb.WriteByte('"')
		x.sb.WriteString(k)
		x.sb.WriteByte('"')
		x.ws()
		x.sb.WriteByte(':')
		if x.cfg.WS >= wsPretty && x.cfg.WS <= wsTabs {
			x.sb.WriteByte(' ')
		} else {
			x.ws()
		}
		x.value(depth + 1)
		x.c.End()
		if i < n-1 {
			x.ws()
		}
	}
	if fill && x.cfg.FillEnd {
		x.fill(true, used, n == 0)
	}
	x.lvl--
	if n > 0 {
		x.nl()
	}
	x.sb.WriteByte('}')
}

func (x *g) array(depth int) {
	x.sb.WriteByte('[')
	x.left--
	n := x.count()
	ctr := x.c.Mark()
	x.lvl++
	fill := x.cfg.Fill > 0 && x.seen == x.cfg.FillAt
	x.seen++
	if fill && !x.cfg.FillEnd {
		x.fill(false, nil, true)
	}
	if n == 0 {
		x.ws()
	}
	for i := 0; i < n; i++ {
		x.c.BeginItem(ctr)
		if i > 0 || fill && !x.cfg.FillEnd {
			x.sb.WriteByte(',')
		}
		x.nl()
		x.value(depth + 1)
		x.c.End()
		if i < n-1 {
			x.ws()
		}
	}
	if fill && x.cfg.FillEnd {
		x.fill(false, nil, n == 0)
	}
	x.lvl--
	if n > 0 {
		x.nl()
	}
	x.sb.WriteByte(']')
}

func (x *g) value(depth int) {
	k := 0
	if depth < x.cfg.MaxDepth {
		if x.cfg.Chain {
			k = x.c.Weighted(35, 35, 30)
		} else {
			k = x.c.Weighted(50, 27, 23)
		}
	}
	switch k {
	case 0:
		x.left--
		x.sb.WriteString(x.scalar())
	case 1:
		x.object(depth)
	case 2:
		x.array(depth)
	}
}

func (x *g) scalar() string {
	c := x.c
	switch c.Weighted(30, 38, 10, 10, 12) {
	case 0:
		return Number(c)
	case 1:
		return `"` + Str(c, x.cfg.LongStr) + `"`
	case 2:
		return []string{"true", "false"}[c.N(2)]
	case 3:
		return "null"
	}
	return []string{"1", `"x"`, `""`, "0", `"y"`, "2", `" "`, `"\""`, `"\\"`}[c.N(9)]
}

var numbers = []string{"0", "1", "7", "10", "-1", "-0", "42", "1.5", "-0.25", "3.14159", "1e3", "1E+5", "2e-7", "-1.25e-10",
	"2147483647", "-2147483648", "2147483648", "9223372036854775807", "-9223372036854775808", "9223372036854775808",
	"18446744073709551615", "1e308", "1e309", "-1e999", "5e-324", "0.1", "0.30000000000000004", "123456789012345678901234567890",
	"1.0", "100000000000000000000.5", "0e0", "0.0", "-0.0", "1e-400", "9007199254740993", "12345", "1E5"}

// Number draws a JSON number.
func Number(c *engine.Case) string {
	switch c.Weighted(40, 35, 25) {
	case 0:
		return strconv.Itoa(c.N(20))
	case 1:
		return numbers[c.N(len(numbers))]
	}
	s := ""
	if c.N(3) == 1 {
		s = "-"
	}
	if c.N(60) == 59 { // longer than any buffer meant for a number
		n := []int{25, 33, 65, 130, 400}[c.N(5)]
		switch c.N(4) {
		case 0:
			return s + "1" + strings.Repeat("0", n)
		case 1:
			return s + "0." + strings.Repeat("0", n) + "1"
		case 2:
			return s + "1." + strings.Repeat("3", n)
		}
		return s + strings.Repeat("9", n) + "e-" + strconv.Itoa(n)
	}
	digits := func(max int) string {
		n := c.Range(1, max)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + c.N(10))
		}
		return string(b)
	}
	if c.N(4) == 1 {
		s += "0"
	} else {
		s += string(byte('1' + c.N(9)))
		if c.N(2) == 1 {
			s += digits(18)
		}
	}
	if c.N(2) == 1 {
		s += "." + digits(12)
	}
	if c.N(4) == 1 {
		s += string("eE"[c.N(2)]) + []string{"", "+", "-"}[c.N(3)] + digits(2)
	}
	return s
}

var frags = []string{"a", "b", " ", "{", "}", "[", "]", ":", ",", `\"`, `\\`, `\/`, `\n`, `\t`, `\u0041`, `\u00e9`, `\ud83d\ude00`, `\b`, `\f`, `\r`, "1", "-", "/",
	"é", "日本", "😀", "\u00a0", "\u2028", "\ufffd", "\x7f", `\"}`, `",`, "}", "'", "<", "&", "name", `\\\\`, `\\\"`, "error_code: 08", "0", ".", "%v", "%s",
	// characters whose last byte, or whose number cut to a byte, is a blank or a JSON sign
	"à", "Å", "Ģ", "Ŝ", "Ż", "Ž", "ś", "ŝ", "Ĭ", "ĺ", "Ġ", "Ċ", "\u3000", "\ufeff", `\u0000`, `\ud800`, `\u0022`, `\u005c`}

// Str draws the text between the quotes of a JSON string.
func Str(c *engine.Case, long bool) string {
	c.Begin()
	defer c.End()
	if long && c.N(3) == 1 {
		if c.N(2) == 0 {
			return exactStr(c, pow(c, 3, 12))
		}
		n := []int{40, 128, 256, 1024, 5000}[c.N(5)]
		f := frag(c)
		var sb strings.Builder
		for sb.Len() < n {
			sb.WriteString(f)
			if c.N(16) == 15 {
				f = frag(c)
			}
		}
		return sb.String()
	}
	switch c.Weighted(15, 60, 25) {
	case 0:
		return []string{"x", "", "y", "abc", "hello world"}[c.N(5)]
	case 1:
		n := c.Range(0, 6)
		s := ""
		ctr := c.Mark()
		for i := 0; i < n; i++ {
			c.BeginItem(ctr)
			s += frag(c)
			c.End()
		}
		return s
	}
	return lookalikes[c.N(len(lookalikes))]
}

var lookalikes = []string{"1", "true", "false", "null", "-1.5e3", "12", "{}", "[]", `{\"a\":1}`, "[1,2]", "[1, 2]", "{a}", "{ }", "[ ]", "]", "}", "},", "],", ":", ",", `\"`, `\\`,
	`\\\\`, " ", "  x  ", "0", "1e999", "[[", "}}", "a,b", "a:b", `a\\`, `\\\"`, `\"\"`, "NaN", "Inf", "0x10", "+1", "01", "1.", ".5", "1_0", "TRUE", "Infinity",
	`\"a\":1`, `\",\"b\":2`, "{[", "]}", "\u2028", "[true]", `[\"x\"]`, "-", "e",
	"error_code: 07", "error_code: 12", "error: key 'a' not found error_code: 08", "error_code: 02 "}

func frag(c *engine.Case) string {
	f := frags[c.N(len(frags))]
	if strings.HasPrefix(f, `"`) {
		f = f[1:]
	}
	return f
}

var tinyKeys = []string{"a", "b", "c", "d", "aa", "ab", "key"}
var wordKeys = []string{"name", "id", "value", "items", "user", "type", "friends", "x", "y", "longer_key_name", "Name", "na", "names"}
var numKeys = []string{"0", "1", "2", "3", "10", "-1", "1.5", "00", "9", "11"}
var hostileKeys = []string{"", " ", "a:b", "a,b", "{", "}", "[", "]", "{}", "[]", `\"`, `a\"b`, `\\`, ":", ",", "null", "true", `\"a`, `a\\`, "a ", " a", "}:", `",`, "a{", "]b", `\\\"`, "a:", ":a", "error_code: 08", "\t"}
var escKeys = []string{`\n`, `\u0061`, `\/`, `a\tb`, `\\n`, `\ud83d\ude00`, `x\\y`, `\b`, `\"\"`, `\\\\`}
var uniKeys = []string{"ключ", "日本", "é", "😀", "ß", "a\u0301", "\u00a0", "\ufffd", "ключи", "à", "Å", "aĢ", "Ŝ", "ź", "\ufeff", "\u3000a"}

// Key draws a raw key of any style.
func Key(c *engine.Case) string {
	x := &g{c: c, cfg: Config{Keys: c.Weighted(40, 10, 10, 15, 10, 5, 10)}}
	return x.key()
}

func (x *g) key() string {
	c := x.c
	m := x.cfg.Keys
	if m == keyMixed {
		m = c.N(keyMixed + 1)
	}
	var k string
	switch m {
	case keyTiny:
		k = tinyKeys[c.N(len(tinyKeys))]
	case keyWord:
		k = wordKeys[c.N(len(wordKeys))]
	case keyNumeric:
		k = numKeys[c.N(len(numKeys))]
	case keyHostile:
		k = hostileKeys[c.N(len(hostileKeys))]
		if strings.HasPrefix(k, `"`) {
			k = k[1:]
		}
		if k == "\t" {
			k = "\\t"
		}
	case keyEscape:
		k = escKeys[c.N(len(escKeys))]
	case keyUnicode:
		k = uniKeys[c.N(len(uniKeys))]
	default:
		k = Str(c, c.N(12) == 11)
	}
	if c.N(150) == 149 {
		n := pow(c, 3, 9)
		if c.N(2) == 0 && n > len(k) {
			n -= len(k)
		}
		k = strings.Repeat("k", n) + k
	}
	if len(x.keys) > 0 && c.N(10) == 9 {
		k = kin(c, x.keys[c.N(len(x.keys))])
		if c.N(4) == 3 { // as if it were a path
			k = x.keys[c.N(len(x.keys))] + joints[c.N(len(joints))] + []string{x.keys[c.N(len(x.keys))], "0", "1"}[c.N(3)]
		}
	}
	if x.cfg.NoEmptyK && k == "" {
		k = "e"
	}
	if len(x.keys) < 40 {
		x.keys = append(x.keys, k)
	}
	return k
}

// kin draws a key that a sloppy comparison takes for k: longer, shorter, one
// byte off, the same bytes in another order or case, or k itself (which one
// object never holds twice, but two objects may).
func kin(c *engine.Case, k string) string {
	if !plain(k) || c.N(5) == 4 {
		return respell(c, k)
	}
	switch c.N(9) {
	case 0:
		return k
	case 1:
		return k + k
	case 2:
		return k + string("abkx01 _"[c.N(8)])
	case 3:
		return string("abkx01 _"[c.N(8)]) + k
	case 4:
		if len(k) > 1 {
			return k[1:]
		}
	case 5:
		if len(k) > 1 {
			return k[:len(k)-1]
		}
	case 6:
		if len(k) > 0 {
			i := c.N(len(k))
			return k[:i] + string("abkx01AZ"[c.N(8)]) + k[i+1:]
		}
	case 7:
		b := []byte(k)
		for i := 0; i < len(b)/2; i++ {
			b[i], b[len(b)-1-i] = b[len(b)-1-i], b[i]
		}
		return string(b)
	case 8:
		if u := strings.ToUpper(k); u != k {
			return u
		}
		return strings.ToLower(k)
	}
	return k
}

// Kin draws a key similar to k, or k itself.
func Kin(c *engine.Case, k string) string { return kin(c, k) }

// units splits the raw content of a JSON string into characters and escapes.
func units(k string) []string {
	var out []string
	for i := 0; i < len(k); {
		n := 1
		switch {
		case k[i] == '\\' && i+1 < len(k) && k[i+1] == 'u':
			n = 6
		case k[i] == '\\':
			n = 2
		case k[i] >= 0x80:
			for i+n < len(k) && k[i+n]&0xc0 == 0x80 {
				n++
			}
		}
		if i+n > len(k) {
			n = len(k) - i
		}
		out = append(out, k[i:i+n])
		i += n
	}
	return out
}

// respell draws a key that differs from k in one character or escape, maybe in
// its spelling alone (which makes it another key: keys are raw text here).
func respell(c *engine.Case, k string) string {
	u := units(k)
	if len(u) == 0 {
		return " "
	}
	i := c.N(len(u))
	x := u[i]
	if c.N(2) == 0 { // prefer an escape
		for j := range u {
			if len(u[(i+j)%len(u)]) > 1 {
				i = (i + j) % len(u)
				x = u[i]
				break
			}
		}
	}
	y := x
	switch op := c.N(8); {
	case op == 0:
		y = ""
	case op == 1:
		y = x + x
	case len(x) == 6 && x[0] == '\\' && op < 5:
		if y = `\u` + strings.ToUpper(x[2:]); y == x {
			y = `\u` + strings.ToLower(x[2:])
		}
	case x[0] == '\\' && len(x) == 2:
		esc := "\"\\/bfnrt"
		val := []string{"0022", "005c", "002f", "0008", "000c", "000a", "000d", "0009"}
		if n := strings.IndexByte(esc, x[1]); n >= 0 && op < 5 {
			y = `\u` + val[n]
		} else {
			y = `\` + string(esc[c.N(len(esc))])
		}
		if x[1] == '/' && op == 5 {
			y = "/"
		}
	case len(x) == 1 && (op == 2 || op == 3):
		if y = strings.ToUpper(x); y == x {
			y = strings.ToLower(x)
		}
	case len(x) == 1 && op == 4:
		y = `\u00` + string("0123456789abcdef"[x[0]>>4]) + string("0123456789ABCDEF"[x[0]&15])
	case op == 5:
		y = x + " "
	case op == 6:
		y = "é"
	default:
		y = "x"
	}
	r := strings.Join(u[:i], "") + y + strings.Join(u[i+1:], "")
	if !refjson.IsStringContent(r) {
		return k
	}
	return r
}

// plain tells whether every byte of k may be moved about in a JSON string.
func plain(k string) bool {
	for i := 0; i < len(k); i++ {
		if k[i] < ' ' || k[i] >= 0x7f || k[i] == '"' || k[i] == '\\' {
			return false
		}
	}
	return true
}

// PickNode draws a node; root allowed or not. Nil if there is none.
func PickNode(c *engine.Case, nodes []*refjson.Node, want func(*refjson.Node) bool) *refjson.Node {
	var sel []*refjson.Node
	for _, n := range nodes {
		if want == nil || want(n) {
			sel = append(sel, n)
		}
	}
	if len(sel) == 0 {
		return nil
	}
	return sel[c.N(len(sel))]
}

// NotRoot selects nodes other than the root.
func NotRoot(n *refjson.Node) bool { return n.Parent != nil }

// IsObj selects objects.
func IsObj(n *refjson.Node) bool { return n.Kind == refjson.Obj }

// IsArr selects arrays.
func IsArr(n *refjson.Node) bool { return n.Kind == refjson.Arr }

// IsMember selects object members.
func IsMember(n *refjson.Node) bool { return n.Parent != nil && n.Parent.Kind == refjson.Obj }

// near draws a key similar to an existing one.
func near(c *engine.Case, k string) string {
	switch c.N(9) {
	case 6, 7, 8:
		return kin(c, k)
	case 0:
		return k + "x"
	case 1:
		if len(k) > 0 && k[0] < 0x80 && k[0] != '\\' && refjson.IsStringContent(k[1:]) {
			return k[1:]
		}
		return k + "0"
	case 2:
		return k + k
	case 3:
		if n := len(k); n > 0 && refjson.IsStringContent(k[:n-1]) {
			return k[:n-1]
		}
		return ""
	case 4:
		return " " + k
	}
	return strings.ToUpper(k) + "_"
}

// NotIndex are steps that are no decimal integers, though some parsers of numbers take them.
var NotIndex = []string{"a", "", "x", "key", "1.5", "1x", "x1", "[0]", "first", "-", "0x", "0x1", "0X0", "0b1", "0o1", "1_0", "0_1", " 1", "1 ", "0 ", "\t0", "1.0", "0.0", "1e0",
	"1E0", "1.", ".1", "+", "--1", "- 1", "1,", "0,1", "0:1", "true", "null", "\uff11", "\u0661", "0\x00", "Inf", "NaN", "\"0\"", "0]", "'0'", "#"}

// MissStep draws a path step that does not resolve at n (any step for a scalar).
func MissStep(c *engine.Case, d *Doc, n *refjson.Node, all []*refjson.Node) string {
	switch n.Kind {
	case refjson.Obj:
		for try := 0; try < 6; try++ {
			var k string
			switch c.Weighted(40, 25, 20, 15) {
			case 0: // a key (or index) used elsewhere in the document
				m := all[c.N(len(all))]
				if m.Parent == nil {
					continue
				}
				k = m.Label()
			case 1:
				if len(n.Kids) == 0 {
					continue
				}
				k = near(c, n.Kids[c.N(len(n.Kids))].Key)
			case 2:
				k = Key(c)
				if c.N(10) == 9 { // the texts of errors
					k = []string{"error_code: 07", "error_code: 02 ", "x error_code: 06", "error_code:20", "19", "' already exist error_code: 11"}[c.N(6)]
				}
			case 3: // something that occurs in the text as a string value
				m := all[c.N(len(all))]
				if m.Kind != refjson.Str {
					continue
				}
				k = m.Text(d.Text)
			}
			if n.Step(k) == nil {
				return k
			}
		}
		k := "missing"
		for n.Step(k) != nil {
			k += "_"
		}
		return k
	case refjson.Arr:
		l := len(n.Kids)
		switch c.Weighted(40, 18, 32, 10) {
		case 0:
			return strconv.Itoa(l + c.N(3))
		case 3: // an index of the array, or one past it, where an integer wraps
			i := uint64(c.N(l + 2))
			switch c.N(8) {
			case 0:
				v := i + 1<<8
				for v < uint64(l) {
					v += 1 << 8
				}
				return strconv.FormatUint(v, 10)
			case 1:
				return strconv.FormatUint(i+1<<16, 10)
			case 2:
				return strconv.FormatUint(i+1<<31, 10)
			case 3:
				return strconv.FormatUint(i+1<<32, 10)
			case 4:
				return strconv.FormatUint(i+1<<63, 10)
			case 5:
				return "-" + strconv.FormatUint(i+1<<32, 10)
			case 6: // 2 to the 64th and on
				return "18446744073709551" + strconv.FormatUint(616+i%300, 10)
			}
			return "9223372036854775807"
		case 1:
			return []string{"-1", "-2", strconv.Itoa(l + 1000), "2147483647", strconv.Itoa(l * 2), strconv.Itoa(l + 10)}[c.N(6)]
		}
		return NotIndex[c.N(len(NotIndex))]
	}
	switch c.N(4) {
	case 0:
		return "0"
	case 1:
		m := all[c.N(len(all))]
		if m.Parent != nil {
			return m.Label()
		}
		return "a"
	case 2:
		return "1"
	}
	return Key(c)
}

// MissingPath draws a path that does not resolve, with the reason.
func MissingPath(c *engine.Case, d *Doc, all []*refjson.Node) ([]string, refjson.Miss) {
	c.Begin()
	defer c.End()
	var n *refjson.Node
	switch c.Weighted(60, 40) {
	case 0:
		n = all[c.N(len(all))]
	case 1: // prefer a container
		n = PickNode(c, all, func(n *refjson.Node) bool { return n.IsContainer() })
	}
	p := append(n.Path(), MissStep(c, d, n, all))
	if c.N(12) == 11 { // the steps of a path that resolves, joined or split
		q := n.Path()
		if len(q) > 1 {
			i := c.N(len(q) - 1)
			q = append(append(append([]string(nil), q[:i]...), q[i]+joints[c.N(len(joints))]+q[i+1]), q[i+2:]...)
		} else if len(q) == 1 && len(q[0]) > 1 {
			i := c.Range(1, len(q[0])-1)
			j := i + c.N(2)
			q = []string{q[0][:i], q[0][j:]}
		}
		if _, miss := d.Root.Resolve(q); miss != refjson.OK {
			p = q
		}
	}
	// possibly continue with steps that would make sense elsewhere
	for c.N(3) == 2 && len(p) < 60 {
		m := all[c.N(len(all))]
		if m.Parent == nil {
			p = append(p, "0")
		} else {
			p = append(p, m.Label())
		}
	}
	_, miss := d.Root.Resolve(p)
	for k := "missing"; miss == refjson.OK; k += "_" {
		// n was hidden by an earlier member with the same key
		p = []string{k}
		_, miss = d.Root.Resolve(p)
	}
	return p, miss
}

// Decoy draws another well-formed text that is as long as the document's.
func Decoy(c *engine.Case, d *Doc) []byte {
	out := append([]byte(nil), d.Text...)
	switch c.N(4) {
	case 1: // an unrelated document among spaces
		if t := SmallDoc(c).Text; len(t) <= len(out) {
			front := c.N(len(out) - len(t) + 1)
			for i := range out {
				out[i] = ' '
			}
			copy(out[front:], t)
			return out
		}
	case 2: // the same, further on or further back
		n := len(out)
		for n > 0 && refjson.IsWS(out[n-1]) {
			n--
		}
		s := 0
		for s < n && refjson.IsWS(out[s]) {
			s++
		}
		if k := len(out) - (n - s); k > 0 {
			t := append([]byte(nil), out[s:n]...)
			front := c.N(k + 1)
			for i := range out {
				out[i] = ' '
			}
			copy(out[front:], t)
			return out
		}
	case 3: // the same entries in another order
		if k := d.Root.Kids; len(k) >= 2 {
			span := func(n *refjson.Node) []byte {
				if d.Root.Kind == refjson.Obj {
					return d.Text[n.KS-1 : n.E]
				}
				return d.Text[n.S:n.E]
			}
			i := c.N(len(k) - 1)
			a, b := span(k[i]), span(k[i+1])
			at := k[i].S
			if d.Root.Kind == refjson.Obj {
				at = k[i].KS - 1
			}
			mid := d.Text[k[i].E : k[i].E+bytes.IndexByte(d.Text[k[i].E:], ',')+1]
			rest := d.Text[k[i].E+len(mid) : k[i+1].E-len(b)]
			w := append(append(append(append(append([]byte(nil), d.Text[:at]...), b...), mid...), rest...), a...)
			w = append(w, d.Text[k[i+1].E:]...)
			if Valid(w) && len(w) == len(out) {
				return w
			}
		}
	}
	// other characters in the same places
	keys := c.N(2) == 1
	by := byte(1 + c.N(8))
	for _, n := range d.Root.All() {
		switch n.Kind {
		case refjson.Num, refjson.Str:
			alter(out[n.S:n.E], by)
		}
		if keys && n.Parent != nil && n.Parent.Kind == refjson.Obj {
			alter(out[n.KS:n.KE], by)
		}
	}
	if !Valid(out) {
		panic("harness error: decoy is not JSON: " + string(out))
	}
	return out
}

// alter changes letters and digits of a text without escapes.
func alter(b []byte, by byte) {
	if bytes.IndexByte(b, 92) >= 0 {
		return
	}
	for i, x := range b {
		switch {
		case x >= '1' && x <= '9':
			b[i] = '1' + (x-'1'+by)%9
		case x >= 'a' && x <= 'z' && x != 'e' && x != 'E':
			b[i] = 'a' + (x-'a'+by)%26
			if b[0] == '-' || b[0] >= '0' && b[0] <= '9' {
				b[i] = x
			}
		}
	}
}

// TinyDoc enumerates small documents: few keys, scalars and shapes, with or
// without whitespace everywhere. Every choice has a small bound.
func TinyDoc(c *engine.Case, nodes, depth int, ws int) *Doc {
	x := &tiny{c: c, left: nodes, max: depth}
	if ws > 1 {
		x.ws = []string{"", " "}[c.N(2)]
	}
	x.sb.WriteString(x.ws)
	x.container(0, c.N(2))
	x.sb.WriteString(x.ws)
	d := New(x.sb.String())
	d.Tiny = true
	return d
}

type tiny struct {
	c    *engine.Case
	left int
	max  int
	ws   string
	sb   strings.Builder
}

// TinyScalars are the scalars of tiny documents.
var TinyScalars = []string{"1", `"s"`, `""`, `"]"`}

func (x *tiny) container(depth, kind int) {
	open, cl := "{", "}"
	if kind == 1 {
		open, cl = "[", "]"
	}
	x.sb.WriteString(open + x.ws)
	keys := []string{"a", "b", "c", "d", "e"}
	for i := 0; x.left > 0 && i < 5; i++ {
		// stop, scalar, object, array
		b := 4
		if depth+1 >= x.max {
			b = 2
		}
		k := x.c.N(b)
		if k == 0 {
			break
		}
		x.left--
		if i > 0 {
			x.sb.WriteString("," + x.ws)
		}
		if kind == 0 {
			x.sb.WriteString(`"` + keys[i] + `"` + x.ws + ":" + x.ws)
		}
		switch k {
		case 1:
			x.sb.WriteString(TinyScalars[x.c.N(len(TinyScalars))] + x.ws)
		case 2:
			x.container(depth+1, 0)
			x.sb.WriteString(x.ws)
		case 3:
			x.container(depth+1, 1)
			x.sb.WriteString(x.ws)
		}
	}
	x.sb.WriteString(cl)
}
