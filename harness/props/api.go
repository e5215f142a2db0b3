// Package props states the properties of ecoshub/jin as generated checks.
package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/ecoshub/jin"

	"jinverif/engine"
	"jinverif/gen"
	"jinverif/refjson"
)

// C is a case.
type C = engine.Case

var registry []*engine.Prop

func register(p *engine.Prop) { registry = append(registry, p) }

// giants are the parts that run again on giant documents, and the size of those: past 65536 entries where the
// calls are linear in it, past 1024 to 4096 where they are not.
var giants = map[string]struct {
	part string
	size int
}{
	"C01": {"lookup", 1 << 16}, "C02": {"edits", 1 << 16}, "C03": {"mixed", 1 << 16}, "C04": {"mixed", 1 << 16},
	"C05": {"mixed", 1 << 16}, "C06": {"mixed", 1 << 16}, "C07": {"mixed", 1 << 16}, "C08": {"mixed", 1 << 16},
	"C09": {"free", 1 << 12}, "C10": {"impossible", 1 << 10}, "C11": {"buffers", 1 << 10}, "C16": {"random", 1 << 16},
	"C12": {"concurrent", 1 << 8}, "C14": {"all", 1 << 16}, "C28": {"random", 1 << 10},
	"C17": {"random", 1 << 16}, "C18": {"random", 1 << 16}, "C19": {"random", 1 << 11}, "C20": {"random", 1 << 16},
	"C21": {"history", 1 << 12}, "C22": {"random", 1 << 10}, "C23": {"wellformed", 1 << 12}, "C24": {"random", 1 << 16},
	"C25": {"random", 1<<16 + 1}, "C29": {"damaged", 1 << 9}, "C30": {"damaged", 1 << 14},
}

// giant adds the part on giant documents.
func giant(p *engine.Prop) {
	g, ok := giants[p.ID]
	if !ok {
		return
	}
	for i := range p.Parts {
		if p.Parts[i].Name == "giant" {
			return
		}
	}
	for i := range p.Parts {
		if p.Parts[i].Name == g.part {
			run := p.Parts[i].Run
			n := 80
			values := strings.Contains("C03 C05 C06 C08 C09 C10 C11 C21 C23 C30", p.ID)
			if values {
				n = 200
			}
			if strings.Contains("C16 C18 C24 C25", p.ID) { // quick ones
				n = 300
			}
			p.Parts = append(p.Parts, engine.Part{Name: "giant", Heavy: true, Serial: p.Parts[i].Serial, Quick: n, Thorough: 2500, Run: func(c *C) {
				c.Giant = g.size
				if values {
					c.GiantVal = g.size
				}
				run(c)
			}})
			return
		}
	}
}

// tuned gives the parts their measured case counts.
func tuned(p *engine.Prop) *engine.Prop {
	for i := range p.Parts {
		if n, ok := counts[p.ID+"/"+p.Parts[i].Name]; ok {
			p.Parts[i].Quick, p.Parts[i].Thorough = n[0], n[1]
		}
	}
	return p
}

// All lists the properties.
func All() []*engine.Prop { return registry }

// Find finds a property.
func Find(id string) *engine.Prop {
	for _, p := range registry {
		if p.ID == id {
			giant(p)
			return tuned(p)
		}
	}
	return nil
}

// RunBytes runs the case that a fuzzer's input stands for: the part, then its
// choices.
func RunBytes(p *engine.Prop, b []byte) (engine.Result, int) {
	if len(b) == 0 {
		return engine.Result{}, 0
	}
	n := len(p.Parts)
	for p.Parts[n-1].Heavy {
		n--
	}
	i := int(b[0]) % n
	return engine.RunCase("quick", engine.NewBytes(b[1:]), p.Parts[i].Run), i
}

// Kind of an edit.
type Kind int

// Edit kinds.
const (
	kSet Kind = iota
	kSetKey
	kAddKeyValue
	kAdd
	kInsert
	kStore
	kDelete
)

// ValKind is the type of an edit's value argument.
type ValKind int

// Value kinds.
const (
	vRaw ValKind = iota
	vStr
	vInt
	vI32
	vI64
	vU
	vU32
	vU64
	vFloat
	vBool
	vNone
)

// Args are the arguments of an edit.
type Args struct {
	Path  []string
	Key   string
	Index int
	Raw   []byte
	Str   string
	I     int
	I32   int32
	I64   int64
	U     uint
	U32   uint32
	U64   uint64
	F     float64
	B     bool
}

// Edit is an edit function in its forms; JO or P may be missing.
type Edit struct {
	Name string
	Kind Kind
	Val  ValKind
	Free func([]byte, *Args) ([]byte, error)
	JO   func(*jin.JO, *Args) error
	P    func(*jin.Parser, *Args) error
}

func editsOf(want func(*Edit) bool) []*Edit {
	var out []*Edit
	for _, e := range edits {
		if want(e) {
			out = append(out, e)
		}
	}
	return out
}

func editNamed(n string) *Edit {
	for _, e := range edits {
		if e.Name == n {
			return e
		}
	}
	panic("harness error: no edit " + n)
}

func (e *Edit) show(a *Args) string {
	s := e.Name + "("
	switch e.Kind {
	case kAddKeyValue, kStore, kSetKey:
		s += fmt.Sprintf("%q, ", a.Key)
	case kInsert:
		s += fmt.Sprintf("%d, ", a.Index)
	}
	if e.Val != vNone {
		s += e.valueText(a) + ", "
	}
	return s + fmt.Sprintf("path %q)", a.Path)
}

func (e *Edit) valueText(a *Args) string {
	switch e.Val {
	case vRaw:
		if a.Raw == nil {
			return "nil"
		}
		return string(a.Raw)
	case vStr:
		return fmt.Sprintf("string %q", a.Str)
	case vFloat:
		return strconv.FormatFloat(a.F, 'g', -1, 64)
	case vNone:
		return ""
	}
	return e.storedRaw(a)
}

// storedRaw is the raw JSON text the edit must store (for floats: one of the
// acceptable notations).
func (e *Edit) storedRaw(a *Args) string {
	switch e.Val {
	case vRaw:
		if a.Raw == nil {
			return "null"
		}
		return string(a.Raw)
	case vStr:
		return storedString(a.Str)
	case vInt:
		return strconv.Itoa(a.I)
	case vI32:
		return strconv.FormatInt(int64(a.I32), 10)
	case vI64:
		return strconv.FormatInt(a.I64, 10)
	case vU:
		return strconv.FormatUint(uint64(a.U), 10)
	case vU32:
		return strconv.FormatUint(uint64(a.U32), 10)
	case vU64:
		return strconv.FormatUint(a.U64, 10)
	case vFloat:
		return strconv.FormatFloat(a.F, 'f', -1, 64)
	case vBool:
		return strconv.FormatBool(a.B)
	}
	return ""
}

// storedString is the value a string argument is stored as (free functions, JO).
func storedString(s string) string {
	if s == "true" || s == "false" || s == "null" || refjson.IsNumber(s) {
		return s
	}
	if bracketed(s) && json.Valid([]byte(s)) || len(s) > 1 && s[0] == '"' && s[len(s)-1] == '"' {
		return s
	}
	return `"` + s + `"`
}

func bracketed(s string) bool {
	n := len(s)
	return n > 1 && (s[0] == '[' && s[n-1] == ']' || s[0] == '{' && s[n-1] == '}')
}

// target is the path of the value an edit has written, on the tree after it.
func (e *Edit) target(v *refjson.Val, a *Args) []string {
	p := a.Path
	switch e.Kind {
	case kSet:
		return p
	case kAddKeyValue, kStore:
		return cat(p, a.Key)
	case kAdd:
		if arr := v.Find(p); arr != nil {
			return cat(p, strconv.Itoa(len(arr.Kids)-1))
		}
	case kInsert:
		return cat(p, strconv.Itoa(a.Index))
	}
	return nil
}

func cat(p []string, more ...string) []string {
	return append(append(make([]string, 0, len(p)+len(more)), p...), more...)
}

// apply performs the edit on the model; false if it is impossible.
func (e *Edit) apply(v *refjson.Val, a *Args) bool {
	var nv *refjson.Val
	if e.Val != vNone {
		nv = refjson.MustVal(e.storedRaw(a))
	}
	switch e.Kind {
	case kSet:
		return v.Set(nv, a.Path)
	case kSetKey:
		return v.SetKey(a.Key, a.Path)
	case kAddKeyValue:
		return v.AddKeyValue(a.Key, nv, a.Path)
	case kAdd:
		return v.Add(nv, a.Path)
	case kInsert:
		return v.Insert(a.Index, nv, a.Path)
	case kStore:
		o := v.Find(a.Path)
		if o == nil || o.Kind != refjson.Obj {
			return false
		}
		if o.HasKey(a.Key) {
			return v.Set(nv, cat(a.Path, a.Key))
		}
		return v.AddKeyValue(a.Key, nv, a.Path)
	case kDelete:
		return v.Delete(a.Path)
	}
	return false
}

// matches compares a result with the model after the edit, allowing any exact
// notation of a float.
func (e *Edit) matches(got, want *refjson.Val, a *Args) bool {
	if e.Val == vFloat {
		p := e.target(want, a)
		g, w := got.Find(p), want.Find(p)
		if g != nil && w != nil && g.Kind == refjson.Num {
			if f, err := strconv.ParseFloat(g.Raw, 64); err == nil && f == a.F {
				w.Raw = g.Raw
			}
		}
	}
	return got.Equal(want)
}

var allCodes = []int{jin.ErrCodeNullPath, jin.ErrCodeEmptyArray, jin.ErrCodeIndexExpected, jin.ErrCodeObjectExpected,
	jin.ErrCodeArrayExpected, jin.ErrCodeIndexOutOfRange, jin.ErrCodeKeyNotFound, jin.ErrCodeBadJSON, jin.ErrCodeKeyAlreadyExist,
	jin.ErrCodeIntegerParse, jin.ErrCodeFloatParse, jin.ErrCodeBoolParse, jin.ErrCodeStringArrayParse, jin.ErrCodeIntegerArrayParse,
	jin.ErrCodeFloatArrayParse, jin.ErrCodeBoolArrayParse, jin.ErrCodeNullKey, jin.ErrCodeEmpty}

// codeOf is the code ErrEqual recognises; it must be exactly one.
func codeOf(c *C, err error) int {
	found := -1
	for k := 0; k < 100; k++ {
		if jin.ErrEqual(err, k) {
			if found >= 0 {
				c.Failf("ErrEqual recognises %q both as code %d and %d", err, found, k)
			}
			found = k
		}
	}
	if found < 0 {
		c.Failf("ErrEqual recognises no code for %q", err)
	}
	names := 0
	for _, k := range allCodes {
		if k == found {
			names++
		}
	}
	if names != 1 {
		c.Failf("the code %d of %q is that of %d kinds of error", found, err, names)
	}
	return found
}

func missCodes(m refjson.Miss) []int {
	switch m {
	case refjson.NoKey:
		return []int{jin.ErrCodeKeyNotFound}
	case refjson.NotIndex:
		return []int{jin.ErrCodeIndexExpected}
	case refjson.NoIndex:
		return []int{jin.ErrCodeIndexOutOfRange}
	case refjson.Empty:
		return []int{jin.ErrCodeIndexOutOfRange, jin.ErrCodeEmptyArray}
	case refjson.Huge:
		return []int{jin.ErrCodeIndexOutOfRange, jin.ErrCodeEmptyArray, jin.ErrCodeIndexExpected}
	}
	return nil // any
}

// wantCodes are the codes an infeasible edit may fail with; nil for any.
func (e *Edit) wantCodes(d *gen.Doc, a *Args) []int {
	root := d.Root
	if e.Val != vRaw && e.Kind == kAddKeyValue && a.Key == "" {
		return []int{jin.ErrCodeNullKey}
	}
	n, miss := root.Resolve(a.Path)
	switch e.Kind {
	case kSet, kDelete:
		if len(a.Path) == 0 {
			return []int{jin.ErrCodeNullPath}
		}
	case kSetKey:
		if a.Key == "" {
			return nil
		}
		if len(a.Path) == 0 {
			return []int{jin.ErrCodeNullPath}
		}
		par, m := root.Resolve(a.Path[:len(a.Path)-1])
		if m != refjson.OK {
			return missCodes(m)
		}
		if par.Kind != refjson.Obj || par.Step(a.Key) != nil {
			return nil
		}
	case kAddKeyValue:
		if miss == refjson.OK {
			if n.Kind != refjson.Obj {
				return []int{jin.ErrCodeObjectExpected}
			}
			return []int{jin.ErrCodeKeyAlreadyExist}
		}
	case kAdd:
		if miss == refjson.OK {
			return []int{jin.ErrCodeArrayExpected}
		}
	case kInsert:
		if a.Index < 0 {
			return nil
		}
		if miss == refjson.OK {
			if n.Kind != refjson.Arr {
				return []int{jin.ErrCodeArrayExpected}
			}
			return nil
		}
	case kStore:
		if miss == refjson.OK {
			return nil
		}
	}
	return missCodes(miss)
}

func wantCode(c *C, err error, codes []int, what string) {
	if err == nil {
		c.Failf("%s succeeds, want an error", what)
	}
	k := codeOf(c, err)
	if codes == nil {
		return
	}
	for _, w := range codes {
		if k == w {
			return
		}
	}
	c.Failf("%s fails with %q (code %d), want code %v", what, err, k, codes)
}

// drawEdit draws arguments for an edit of the document. wild is the percentage
// of deliberately impossible ones.
func drawEdit(c *C, d *gen.Doc, e *Edit, wild int) *Args {
	c.Begin()
	defer c.End()
	a := &Args{}
	drawValue(c, e, a)
	all := d.Root.All()
	if c.Pct(wild) {
		drawWild(c, d, e, a, all)
		return a
	}
	switch e.Kind {
	case kSet, kDelete:
		n := gen.PickNode(c, all, gen.NotRoot)
		if n == nil {
			drawWild(c, d, e, a, all)
			return a
		}
		a.Path = n.Path()
	case kSetKey:
		n := gen.PickNode(c, all, gen.IsMember)
		if n == nil {
			drawWild(c, d, e, a, all)
			return a
		}
		a.Path = n.Path()
		a.Key = newKey(c, n.Parent)
	case kAddKeyValue:
		n := gen.PickNode(c, all, gen.IsObj)
		if n == nil {
			drawWild(c, d, e, a, all)
			return a
		}
		a.Path = n.Path()
		a.Key = newKey(c, n)
	case kStore:
		n := gen.PickNode(c, all, gen.IsObj)
		if n == nil {
			drawWild(c, d, e, a, all)
			return a
		}
		a.Path = n.Path()
		if len(n.Kids) > 0 && c.N(2) == 1 {
			a.Key = n.Kids[c.N(len(n.Kids))].Key
		} else {
			a.Key = newKey(c, n)
		}
	case kAdd:
		n := gen.PickNode(c, all, gen.IsArr)
		if n == nil {
			drawWild(c, d, e, a, all)
			return a
		}
		a.Path = n.Path()
	case kInsert:
		n := gen.PickNode(c, all, func(n *refjson.Node) bool { return gen.IsArr(n) && len(n.Kids) > 0 })
		if n == nil {
			drawWild(c, d, e, a, all)
			return a
		}
		a.Path = n.Path()
		a.Index = c.N(len(n.Kids))
	}
	return a
}

// newKey draws a non-empty key that the object does not have.
func newKey(c *C, n *refjson.Node) string {
	k := ""
	switch c.Weighted(60, 18, 8, 14) {
	case 0:
		k = gen.Key(c)
	case 3: // one like those it has
		if len(n.Kids) > 0 {
			k = gen.Kin(c, n.Kids[c.N(len(n.Kids))].Key)
		}
	case 1: // one that an object further down has
		for m, depth := n, 0; len(m.Kids) > 0 && depth < 6; depth++ {
			i := c.N(len(m.Kids))
			if len(m.Kids) > 8 && c.N(2) == 0 {
				i = []int{0, len(m.Kids) - 1}[c.N(2)]
			}
			m = m.Kids[i]
			if m.Parent.Kind == refjson.Obj && m.Parent != n {
				k = m.Key
				if c.N(2) == 0 {
					break
				}
			}
		}
	case 2: // one that an object further up has
		for m := n; m.Parent != nil; m = m.Parent {
			if m.Parent.Kind == refjson.Obj {
				k = m.Parent.Kids[c.N(len(m.Parent.Kids))].Key
				if c.N(2) == 0 {
					break
				}
			}
		}
	}
	if k == "" {
		k = "n"
	}
	for n.Step(k) != nil {
		k += "_"
	}
	return k
}

// drawWild draws arguments that make the edit impossible (usually).
func drawWild(c *C, d *gen.Doc, e *Edit, a *Args, all []*refjson.Node) {
	a.Key = gen.Key(c)
	if a.Key == "" {
		a.Key = "n"
	}
	if e.Kind == kInsert {
		a.Index = []int{0, 1, 2, -1, 5, 100}[c.N(6)]
	}
	switch c.Weighted(45, 35, 10, 10) {
	case 0:
		a.Path, _ = gen.MissingPath(c, d, all)
		if len(a.Path) > 1 && c.N(4) == 3 && e.Kind == kStore {
			a.Key = a.Path[len(a.Path)-1]
		}
	case 1: // the wrong place: resolves, but to something the edit cannot use
		n := all[c.N(len(all))]
		a.Path = n.Path()
		switch e.Kind {
		case kAddKeyValue:
			if n.Kind == refjson.Obj && len(n.Kids) > 0 {
				a.Key = n.Kids[c.N(len(n.Kids))].Key
			}
		case kSetKey:
			if n.Parent != nil && len(n.Parent.Kids) > 0 {
				a.Key = n.Parent.Kids[c.N(len(n.Parent.Kids))].Label()
			}
		case kInsert:
			if n.Kind == refjson.Arr {
				a.Index = []int{len(n.Kids), len(n.Kids) + 1, -1, -2}[c.N(4)]
			}
		}
	case 2:
		a.Path = nil
	case 3:
		n := all[c.N(len(all))]
		a.Path = cat(n.Path(), gen.MissStep(c, d, n, all))
	}
	if e.Kind == kStore {
		// storing into an array element is not specified: use objects, scalars
		// and unresolved paths only
		if n, m := d.Root.Resolve(a.Path); m == refjson.OK && n.Kind == refjson.Arr {
			a.Path = cat(a.Path, gen.MissStep(c, d, n, all))
		}
	}
}

var floats = []float64{0, 1, -1, 0.5, 3.14, 1e21, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, -0.1, 123456789.125, 1e100, math.Copysign(0, -1), 100, 1 << 53, 2.5e-300}

// Float draws a finite float.
func drawFloat(c *C) float64 {
	switch c.N(4) {
	case 0:
		return float64(c.N(100))
	case 1:
		return floats[c.N(len(floats))]
	case 2:
		return float64(int64(c.U(1<<40))-1<<39) / float64(int(1)<<uint(c.N(20)))
	}
	f := math.Float64frombits(c.U(0))
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return 2.5
	}
	return f
}

func drawInt64(c *C) int64 {
	switch c.N(3) {
	case 0:
		return int64(c.N(2000)) - 1000
	case 1:
		return []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, 31, 32, 63, 64, 100}[c.N(13)]
	}
	return int64(c.U(0))
}

func drawUint64(c *C) uint64 {
	switch c.N(3) {
	case 0:
		return uint64(c.N(2000))
	case 1:
		return []uint64{0, 1, math.MaxUint64, math.MaxUint32, 1 << 63, math.MaxInt64, 31, 32, 63, 64, 10}[c.N(11)]
	}
	return c.U(0)
}

// drawStr draws a string argument of a typed string writer.
func drawStr(c *C) string {
	if c.Giant > 0 {
		n := c.Giant
		c.Giant = 0
		return gen.GiantStr(c, n)
	}
	switch c.Weighted(55, 15, 15, 15) {
	case 0:
		return gen.Str(c, c.N(10) == 9)
	case 1:
		return gen.Number(c)
	case 2:
		return []string{"", "true", "false", "null", "NaN", "Inf", "-Inf", "+1", "01", "-01", "00", "-0", "0x1F", "1e5", "1E400", ".5", "5.", "1_000", "infinity", "-", "00.5", "0.50",
			"+1.5", "0x1p-2", "nan", "True", "1 ", " 1", "007", "-", "--1", "1e", "1e+", "0e1", "2147483648", "-2147483649", "9223372036854775808", "0b1", "0o7"}[c.N(39)]
	}
	return gen.Value(c)
}

func drawValue(c *C, e *Edit, a *Args) {
	switch e.Val {
	case vRaw:
		a.Raw = []byte(gen.Value(c))
	case vStr:
		a.Str = drawStr(c)
	case vInt:
		a.I = int(drawInt64(c))
	case vI32:
		a.I32 = int32(drawInt64(c))
	case vI64:
		a.I64 = drawInt64(c)
	case vU:
		a.U = uint(drawUint64(c))
	case vU32:
		a.U32 = uint32(drawUint64(c))
	case vU64:
		a.U64 = drawUint64(c)
	case vFloat:
		a.F = drawFloat(c)
	case vBool:
		a.B = c.N(2) == 1
	}
}

// oneChange reports whether b is a with one contiguous span replaced, and where.
func oneChange(a, b []byte) (prefix, suffix int) {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for prefix < n && a[prefix] == b[prefix] {
		prefix++
	}
	for suffix < n-prefix && a[len(a)-1-suffix] == b[len(b)-1-suffix] {
		suffix++
	}
	return
}

// checkEdit checks the outcome of a free edit of a well-formed document.
// It returns the resulting document.
func checkEdit(c *C, d *gen.Doc, e *Edit, a *Args, orig, out []byte, err error) *gen.Doc {
	model := d.Val()
	feasible := e.apply(model, a)
	if e.Val != vRaw && e.Kind == kAddKeyValue && a.Key == "" {
		feasible = false
	}
	if !feasible {
		wantCode(c, err, e.wantCodes(d, a), e.show(a))
		if !bytes.Equal(out, orig) {
			c.Failf("%s fails (%v) but returns %q instead of the unchanged document", e.show(a), err, out)
		}
		return d
	}
	if err != nil {
		c.Failf("%s fails: %v", e.show(a), err)
	}
	n, perr := refjson.Parse(out)
	if perr != nil {
		c.Failf("%s gives malformed %q", e.show(a), out)
	}
	if !gen.Valid(out) {
		panic("harness error: reference parser accepts what encoding/json rejects")
	}
	got := n.Val(out)
	if !e.matches(got, model, a) {
		c.Failf("%s gives %q\n want the equivalent of %s", e.show(a), out, model)
	}
	old := d.Text
	switch e.Kind {
	case kSet, kSetKey:
		t, _ := d.Root.Resolve(a.Path)
		var want string
		if e.Kind == kSet {
			stored := e.storedRaw(a)
			if e.Val == vFloat {
				stored = got.Find(a.Path).Raw
			}
			want = string(old[:t.S]) + stored + string(old[t.E:])
		} else {
			want = string(old[:t.KS]) + a.Key + string(old[t.KE:])
		}
		if string(out) != want {
			c.Failf("%s gives %q\n want %q", e.show(a), out, want)
		}
	default:
		cont, _ := d.Root.Resolve(a.Path)
		replaced := false
		if e.Kind == kDelete {
			cont = cont.Parent
		}
		if e.Kind == kStore {
			replaced = cont.Step(a.Key) != nil
		}
		if !bytes.HasPrefix(out, old[:cont.S+1]) || !bytes.HasSuffix(out, old[cont.E-1:]) {
			c.Failf("%s changes bytes outside its container: %q", e.show(a), out)
		}
		pre, suf := oneChange(old, out)
		switch {
		case replaced:
			t := cont.Step(a.Key)
			stored := e.storedRaw(a)
			if e.Val == vFloat {
				stored = got.Find(cat(a.Path, a.Key)).Raw
			}
			if string(out) != string(old[:t.S])+stored+string(old[t.E:]) {
				c.Failf("%s changes bytes besides the value: %q", e.show(a), out)
			}
		case e.Kind == kDelete:
			if pre+suf < len(out) {
				c.Failf("%s does more than removing one span: %q", e.show(a), out)
			}
		default:
			if pre+suf < len(old) {
				c.Failf("%s does more than inserting one span: %q", e.show(a), out)
			}
		}
	}
	return &gen.Doc{Text: out, Root: n}
}

func cloneArgs(a *Args) *Args {
	b := *a
	b.Path = append([]string(nil), a.Path...)
	if a.Raw != nil {
		b.Raw = append([]byte(nil), a.Raw...)
	}
	return &b
}

func clipS(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func show(v interface{}) string {
	switch x := v.(type) {
	case []byte:
		if x == nil {
			return "nil"
		}
		return strconv.Quote(string(x))
	case string:
		return strconv.Quote(x)
	case float64:
		return strconv.FormatUint(math.Float64bits(x), 16)
	case []float64:
		var s []string
		for _, f := range x {
			s = append(s, show(f))
		}
		return "[" + strings.Join(s, " ") + "]"
	}
	return fmt.Sprintf("%#v", v)
}
