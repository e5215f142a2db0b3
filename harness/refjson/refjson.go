// Package refjson is the reference: a strict RFC 8259 parser with source spans,
// and a tree model on which edits are performed naively.
package refjson

import (
	"errors"
	"strconv"
	"strings"
)

// Kind of a JSON value.
type Kind int

// Kinds.
const (
	Obj Kind = iota
	Arr
	Str
	Num
	Bool
	Null
)

func (k Kind) String() string {
	return [...]string{"object", "array", "string", "number", "boolean", "null"}[k]
}

// Node is a value in a text. S and E delimit its raw text (with the quotes of a
// string); for members KS and KE delimit the raw key between its quotes.
type Node struct {
	Kind   Kind
	S, E   int
	KS, KE int
	Key    string
	Kids   []*Node
	Parent *Node
	Index  int
}

var errSyntax = errors.New("refjson: not a JSON text")

type parser struct {
	b     []byte
	i     int
	depth int
}

// Parse parses a complete JSON text.
func Parse(b []byte) (*Node, error) {
	p := &parser{b: b}
	p.ws()
	n, err := p.value()
	if err != nil {
		return nil, err
	}
	p.ws()
	if p.i != len(b) {
		return nil, errSyntax
	}
	return n, nil
}

// IsWS tells whether c is JSON whitespace.
func IsWS(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func (p *parser) ws() {
	for p.i < len(p.b) && IsWS(p.b[p.i]) {
		p.i++
	}
}

func (p *parser) peek() byte {
	if p.i < len(p.b) {
		return p.b[p.i]
	}
	return 0
}

func (p *parser) lit(s string) bool {
	if len(p.b)-p.i >= len(s) && string(p.b[p.i:p.i+len(s)]) == s {
		p.i += len(s)
		return true
	}
	return false
}

func (p *parser) str() (int, int, error) {
	if p.peek() != '"' {
		return 0, 0, errSyntax
	}
	p.i++
	s := p.i
	for p.i < len(p.b) {
		c := p.b[p.i]
		switch {
		case c == '"':
			e := p.i
			p.i++
			return s, e, nil
		case c < 0x20:
			return 0, 0, errSyntax
		case c == '\\':
			p.i++
			if p.i >= len(p.b) {
				return 0, 0, errSyntax
			}
			switch p.b[p.i] {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
			case 'u':
				for k := 1; k <= 4; k++ {
					if p.i+k >= len(p.b) || strings.IndexByte("0123456789abcdefABCDEF", p.b[p.i+k]) < 0 {
						return 0, 0, errSyntax
					}
				}
				p.i += 4
			default:
				return 0, 0, errSyntax
			}
			p.i++
		default:
			p.i++
		}
	}
	return 0, 0, errSyntax
}

func (p *parser) num() bool {
	digits := func() bool {
		s := p.i
		for p.peek() >= '0' && p.peek() <= '9' {
			p.i++
		}
		return p.i > s
	}
	if p.peek() == '-' {
		p.i++
	}
	if p.peek() == '0' {
		p.i++
	} else if !digits() {
		return false
	}
	if p.peek() == '.' {
		p.i++
		if !digits() {
			return false
		}
	}
	if c := p.peek(); c == 'e' || c == 'E' {
		p.i++
		if c := p.peek(); c == '+' || c == '-' {
			p.i++
		}
		if !digits() {
			return false
		}
	}
	return true
}

// IsNumber reports whether s is exactly a JSON number.
func IsNumber(s string) bool {
	p := &parser{b: []byte(s)}
	return s != "" && p.num() && p.i == len(s)
}

// IsStringContent reports whether s may stand between the quotes of a JSON string.
func IsStringContent(s string) bool {
	p := &parser{b: []byte(`"` + s + `"`)}
	_, e, err := p.str()
	return err == nil && e == len(s)+1
}

func (p *parser) value() (*Node, error) {
	p.depth++
	defer func() { p.depth-- }()
	if p.depth > 100000 {
		return nil, errSyntax
	}
	n := &Node{S: p.i}
	switch c := p.peek(); {
	case c == '{':
		n.Kind = Obj
		p.i++
		p.ws()
		if p.peek() == '}' {
			p.i++
			break
		}
		for {
			p.ws()
			ks, ke, err := p.str()
			if err != nil {
				return nil, err
			}
			p.ws()
			if p.peek() != ':' {
				return nil, errSyntax
			}
			p.i++
			p.ws()
			k, err := p.value()
			if err != nil {
				return nil, err
			}
			k.KS, k.KE, k.Key = ks, ke, string(p.b[ks:ke])
			k.Parent, k.Index = n, len(n.Kids)
			n.Kids = append(n.Kids, k)
			p.ws()
			if p.peek() == ',' {
				p.i++
				continue
			}
			if p.peek() == '}' {
				p.i++
				break
			}
			return nil, errSyntax
		}
	case c == '[':
		n.Kind = Arr
		p.i++
		p.ws()
		if p.peek() == ']' {
			p.i++
			break
		}
		for {
			p.ws()
			k, err := p.value()
			if err != nil {
				return nil, err
			}
			k.Parent, k.Index = n, len(n.Kids)
			n.Kids = append(n.Kids, k)
			p.ws()
			if p.peek() == ',' {
				p.i++
				continue
			}
			if p.peek() == ']' {
				p.i++
				break
			}
			return nil, errSyntax
		}
	case c == '"':
		n.Kind = Str
		if _, _, err := p.str(); err != nil {
			return nil, err
		}
	case c == 't' || c == 'f':
		n.Kind = Bool
		if !p.lit("true") && !p.lit("false") {
			return nil, errSyntax
		}
	case c == 'n':
		n.Kind = Null
		if !p.lit("null") {
			return nil, errSyntax
		}
	default:
		n.Kind = Num
		if !p.num() {
			return nil, errSyntax
		}
	}
	n.E = p.i
	return n, nil
}

// IsContainer reports whether the node is an object or array.
func (n *Node) IsContainer() bool { return n.Kind == Obj || n.Kind == Arr }

// Raw is the node's complete source text.
func (n *Node) Raw(text []byte) string { return string(text[n.S:n.E]) }

// Text is what a lookup of the node yields: string contents without the quotes,
// anything else as its raw text.
func (n *Node) Text(text []byte) string {
	if n.Kind == Str {
		return string(text[n.S+1 : n.E-1])
	}
	return string(text[n.S:n.E])
}

// Label is the path step that leads to the node from its parent.
func (n *Node) Label() string {
	if n.Parent != nil && n.Parent.Kind == Obj {
		return n.Key
	}
	return strconv.Itoa(n.Index)
}

// Path is the path from the root.
func (n *Node) Path() []string {
	d := 0
	for m := n; m.Parent != nil; m = m.Parent {
		d++
	}
	p := make([]string, d)
	for m := n; m.Parent != nil; m = m.Parent {
		d--
		p[d] = m.Label()
	}
	return p
}

// All lists the node and its descendants in document order.
func (n *Node) All() []*Node {
	out := []*Node{n}
	for _, k := range n.Kids {
		out = append(out, k.All()...)
	}
	return out
}

// Step finds a child; nil if the label does not resolve. Array labels must be
// canonical decimal.
func (n *Node) Step(label string) *Node {
	switch n.Kind {
	case Obj:
		for _, k := range n.Kids {
			if k.Key == label {
				return k
			}
		}
	case Arr:
		i, err := strconv.Atoi(label)
		if err == nil && i >= 0 && i < len(n.Kids) {
			return n.Kids[i]
		}
	}
	return nil
}

// Miss classifies a path that does not resolve.
type Miss int

// Miss classes.
const (
	OK       Miss = iota
	NoKey         // key absent from an object
	NotIndex      // non-integer step into an array
	NoIndex       // index outside a non-empty array
	Empty         // index into an empty array
	Scalar        // step into a scalar
	Huge          // index beyond every machine integer
)

// Resolve walks a path.
func (n *Node) Resolve(path []string) (*Node, Miss) {
	for _, p := range path {
		switch n.Kind {
		case Obj:
			k := n.Step(p)
			if k == nil {
				return nil, NoKey
			}
			n = k
		case Arr:
			i, err := strconv.Atoi(p)
			if errors.Is(err, strconv.ErrRange) {
				return nil, Huge
			}
			if err != nil {
				return nil, NotIndex
			}
			if len(n.Kids) == 0 {
				return nil, Empty
			}
			if i < 0 || i >= len(n.Kids) {
				return nil, NoIndex
			}
			n = n.Kids[i]
		default:
			return nil, Scalar
		}
	}
	return n, OK
}

// Depth counts ancestors.
func (n *Node) Depth() int {
	d := 0
	for n.Parent != nil {
		n = n.Parent
		d++
	}
	return d
}

// Val is a value independent of any text: scalars keep their raw text.
type Val struct {
	Kind Kind
	Raw  string
	Keys []string
	Kids []*Val
}

// Val converts a node.
func (n *Node) Val(text []byte) *Val {
	v := &Val{Kind: n.Kind}
	if !n.IsContainer() {
		v.Raw = n.Raw(text)
		return v
	}
	for _, k := range n.Kids {
		if n.Kind == Obj {
			v.Keys = append(v.Keys, k.Key)
		}
		v.Kids = append(v.Kids, k.Val(text))
	}
	return v
}

// ParseVal parses a text to a Val.
func ParseVal(b []byte) (*Val, error) {
	n, err := Parse(b)
	if err != nil {
		return nil, err
	}
	return n.Val(b), nil
}

// MustVal parses a text known to be JSON.
func MustVal(s string) *Val {
	v, err := ParseVal([]byte(s))
	if err != nil {
		panic("refjson: harness error: not JSON: " + s)
	}
	return v
}

// String renders compactly.
func (v *Val) String() string {
	var sb strings.Builder
	v.write(&sb)
	return sb.String()
}

func (v *Val) write(sb *strings.Builder) {
	switch v.Kind {
	case Obj, Arr:
		open, cl := byte('{'), byte('}')
		if v.Kind == Arr {
			open, cl = '[', ']'
		}
		sb.WriteByte(open)
		for i, k := range v.Kids {
			if i > 0 {
				sb.WriteByte(',')
			}
			if v.Kind == Obj {
				sb.WriteByte('"')
				sb.WriteString(v.Keys[i])
				sb.WriteString(`":`)
			}
			k.write(sb)
		}
		sb.WriteByte(cl)
	default:
		sb.WriteString(v.Raw)
	}
}

// Text is what a lookup of the value yields, in compact form.
func (v *Val) Text() string {
	if v.Kind == Str {
		return v.Raw[1 : len(v.Raw)-1]
	}
	return v.String()
}

// Equal compares structure, order, keys and raw scalars.
func (v *Val) Equal(o *Val) bool {
	if v.Kind != o.Kind || v.Raw != o.Raw || len(v.Kids) != len(o.Kids) {
		return false
	}
	for i := range v.Kids {
		if v.Kind == Obj && v.Keys[i] != o.Keys[i] {
			return false
		}
		if !v.Kids[i].Equal(o.Kids[i]) {
			return false
		}
	}
	return true
}

// Clone copies deeply.
func (v *Val) Clone() *Val {
	c := &Val{Kind: v.Kind, Raw: v.Raw, Keys: append([]string(nil), v.Keys...)}
	for _, k := range v.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	return c
}

// Find resolves a path; nil if it does not resolve.
func (v *Val) Find(path []string) *Val {
	for _, p := range path {
		i := v.idx(p)
		if i < 0 {
			return nil
		}
		v = v.Kids[i]
	}
	return v
}

func (v *Val) idx(p string) int {
	switch v.Kind {
	case Obj:
		for i, k := range v.Keys {
			if k == p {
				return i
			}
		}
	case Arr:
		i, err := strconv.Atoi(p)
		if err == nil && i >= 0 && i < len(v.Kids) {
			return i
		}
	}
	return -1
}

// HasKey reports whether an object has a member.
func (v *Val) HasKey(k string) bool { return v.Kind == Obj && v.idx(k) >= 0 }

// The edits below return false, changing nothing, when the edit is impossible.

// Set replaces the value at a non-empty path.
func (v *Val) Set(nv *Val, path []string) bool {
	if len(path) == 0 {
		return false
	}
	p := v.Find(path[:len(path)-1])
	if p == nil {
		return false
	}
	i := p.idx(path[len(path)-1])
	if i < 0 {
		return false
	}
	p.Kids[i] = nv
	return true
}

// SetKey renames a member.
func (v *Val) SetKey(key string, path []string) bool {
	if len(path) == 0 || key == "" {
		return false
	}
	p := v.Find(path[:len(path)-1])
	if p == nil || p.Kind != Obj || p.HasKey(key) {
		return false
	}
	i := p.idx(path[len(path)-1])
	if i < 0 {
		return false
	}
	p.Keys[i] = key
	return true
}

// AddKeyValue appends a member.
func (v *Val) AddKeyValue(key string, nv *Val, path []string) bool {
	o := v.Find(path)
	if o == nil || o.Kind != Obj || o.HasKey(key) {
		return false
	}
	o.Keys = append(o.Keys, key)
	o.Kids = append(o.Kids, nv)
	return true
}

// Add appends an element.
func (v *Val) Add(nv *Val, path []string) bool {
	a := v.Find(path)
	if a == nil || a.Kind != Arr {
		return false
	}
	a.Kids = append(a.Kids, nv)
	return true
}

// Insert puts an element before an existing one.
func (v *Val) Insert(i int, nv *Val, path []string) bool {
	a := v.Find(path)
	if a == nil || a.Kind != Arr || i < 0 || i >= len(a.Kids) {
		return false
	}
	a.Kids = append(a.Kids, nil)
	copy(a.Kids[i+1:], a.Kids[i:])
	a.Kids[i] = nv
	return true
}

// Delete removes a member or element.
func (v *Val) Delete(path []string) bool {
	if len(path) == 0 {
		return false
	}
	p := v.Find(path[:len(path)-1])
	if p == nil {
		return false
	}
	i := p.idx(path[len(path)-1])
	if i < 0 {
		return false
	}
	p.Kids = append(p.Kids[:i:i], p.Kids[i+1:]...)
	if p.Kind == Obj {
		p.Keys = append(p.Keys[:i:i], p.Keys[i+1:]...)
	}
	return true
}

// Nodes counts values.
func (v *Val) Nodes() int {
	n := 1
	for _, k := range v.Kids {
		n += k.Nodes()
	}
	return n
}

// Paths lists the paths of all values, root first.
func (v *Val) Paths() [][]string {
	var out [][]string
	var rec func(v *Val, p []string)
	rec = func(v *Val, p []string) {
		out = append(out, append([]string(nil), p...))
		for i, k := range v.Kids {
			l := strconv.Itoa(i)
			if v.Kind == Obj {
				l = v.Keys[i]
			}
			rec(k, append(p[:len(p):len(p)], l))
		}
	}
	rec(v, nil)
	return out
}
