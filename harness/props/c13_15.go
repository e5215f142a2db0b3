package props

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/ecoshub/jin"

	"jinverif/engine"
	"jinverif/gen"
	"jinverif/refjson"
)

// runTyped checks one typed edit in all its forms on one document.
func runTyped(c *C, d *gen.Doc, e *Edit, a *Args) {
	orig := string(d.Text)
	out, err := e.Free(append([]byte(nil), orig...), a)
	nd := checkEdit(c, d, e, a, []byte(orig), out, err)
	if err == nil {
		readBack(c, nd, e, a, "", func(r *Read, p []string) (string, error) { s, _, err := r.Free(out, p); return s, err })
	}
	if e.JO != nil {
		j := jin.New([]byte(orig))
		err := e.JO(j, a)
		nd := checkEdit(c, d, e, a, []byte(orig), j.JSON(), err)
		if err == nil {
			readBack(c, nd, e, a, "JO ", func(r *Read, p []string) (string, error) { return r.JO(j, p) })
		}
	}
	if e.P != nil && parserString(e, a) {
		p, err := jin.Parse([]byte(orig))
		if err != nil {
			c.Failf("Parse fails: %v", err)
		}
		err = e.P(p, a)
		pe, pa := parserForm(d, e, a, p.JSON())
		if err != nil {
			// the Parser's codes for missing paths are its own
			model := d.Val()
			if e.apply(model, a) && !(e.Kind == kAddKeyValue && a.Key == "") {
				c.Failf("Parser %s fails: %v", e.show(a), err)
			}
			if string(p.JSON()) != orig {
				c.Failf("Parser %s fails (%v) but changes the document to %q", e.show(a), err, p.JSON())
			}
			return
		}
		nd := checkEdit(c, d, pe, pa, []byte(orig), p.JSON(), nil)
		readBack(c, nd, pe, pa, "Parser ", func(r *Read, q []string) (string, error) { return r.P(p, q) })
	}
}

// parserString reports whether the arguments are in the domain of a Parser's
// string writers: the text of a JSON string, or a quoted one.
func parserString(e *Edit, a *Args) bool {
	return e.Val != vStr || refjson.IsStringContent(a.Str) ||
		len(a.Str) > 1 && a.Str[0] == '"' && a.Str[len(a.Str)-1] == '"' && refjson.IsStringContent(a.Str[1:len(a.Str)-1])
}

// parserForm chooses between the two notations a Parser may store a string
// argument in: like the free functions, or always as a string.
func parserForm(d *gen.Doc, e *Edit, a *Args, out []byte) (*Edit, *Args) {
	if e.Val != vStr || !refjson.IsStringContent(a.Str) || storedString(a.Str) == `"`+a.Str+`"` || e.Kind == kAddKeyValue && a.Key == "" {
		return e, a
	}
	alt, b := *e, cloneArgs(a)
	alt.Val = vRaw
	b.Raw = []byte(`"` + a.Str + `"`)
	model := d.Val()
	if !alt.apply(model, b) {
		return e, a
	}
	if got, err := refjson.ParseVal(out); err == nil && got.Equal(model) {
		return &alt, b
	}
	return e, a
}

// readBack reads the stored value with the getter of its type.
func readBack(c *C, d *gen.Doc, e *Edit, a *Args, form string, read func(*Read, []string) (string, error)) {
	p := e.target(d.Val(), a)
	if p == nil {
		return
	}
	check := func(name string, want interface{}) {
		got, err := read(readNamed(name), p)
		if err != nil || got != show(want) {
			c.Failf("after %s%s giving %q, %s = %s, %v, want %s", form, e.show(a), d.Text, name, got, err, show(want))
		}
	}
	switch e.Val {
	case vInt, vI32, vI64:
		v := int64(a.I)
		if e.Val == vI32 {
			v = int64(a.I32)
		} else if e.Val == vI64 {
			v = a.I64
		}
		if int64(int(v)) == v {
			check("GetInt", int(v))
		}
	case vU, vU32, vU64:
		v := uint64(a.U)
		if e.Val == vU32 {
			v = uint64(a.U32)
		} else if e.Val == vU64 {
			v = a.U64
		}
		if v <= math.MaxInt64 && int64(int(v)) == int64(v) {
			check("GetInt", int(v))
		}
	case vFloat:
		check("GetFloat", a.F)
	case vBool:
		check("GetBool", a.B)
	case vStr:
		s := e.storedRaw(a)
		if s[0] == '"' {
			s = s[1 : len(s)-1]
		}
		check("GetString", s)
	}
}

// replaceNode is the document with the text of one value replaced.
func replaceNode(d *gen.Doc, n *refjson.Node, text string) (*gen.Doc, *refjson.Node) {
	p := n.Path()
	nd := gen.New(string(d.Text[:n.S]) + text + string(d.Text[n.E:]))
	m, _ := nd.Root.Resolve(p)
	return nd, m
}

var scalarTexts = []string{"0", "-0", "1", "-1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
	"18446744073709551615", "18446744073709551616", "2147483648", "-2147483649", "4294967296", "1.0", "1e0", "1E3", "10e-1", "1.5", "0.0", "-0.0", "1e308", "1.7976931348623157e308", "1.7976931348623159e308",
	"1e309", "-1e400", "5e-324", "2e-324", "1e-400", "9007199254740993", "0.1", "123456789012345678901234567890", "true", "false", "null",
	`"1"`, `"-12"`, `"1.5"`, `"+1"`, `"01"`, `" 1"`, `"1 "`, `"1_000"`, `"0x10"`, `"0b1"`, `"0o17"`, `"NaN"`, `"nan"`, `"Inf"`, `"-infinity"`, `"true"`, `"false"`, `" true"`, `"True"`, `"TRUE"`, `"1e999"`, `""`,
	`"t"`, `"T"`, `"f"`, `"F"`, `"1\n"`, `"\u0031"`, `"x"`, `"null"`, `"0x1p-2"`, `"1."`, `".5"`, `"--1"`, `"٣"`, `"１"`, "{}", "[]", "[1]", `{"a":1}`, `"[1]"`, `"{}"`,
	"0.30000000000000004", "100000000000000000000", "1e1000000000", "12345678901234567890e-1"}

func drawScalarText(c *C) string {
	switch c.Weighted(40, 20, 15, 15, 10) {
	case 0:
		return scalarTexts[c.N(len(scalarTexts))]
	case 1:
		return strconv.FormatInt(drawInt64(c), 10)
	case 2:
		return strconv.FormatFloat(drawFloat(c), "gfe"[c.N(3)], -1, 64)
	case 3:
		return gen.Number(c)
	}
	return gen.Scalar(c)
}

// isInt is the integer grammar of JSON.
func isInt(s string) bool { return refjson.IsNumber(s) && !strings.ContainsAny(s, ".eE") }

// intValue is what an integer getter may return for a text: the value, whether
// it must succeed, and whether it may.
func intValue(s string) (v int, must, may bool) {
	v, err := strconv.Atoi(s)
	if err == nil {
		return v, isInt(s), true
	}
	if refjson.IsNumber(s) && len(s) < 40 {
		if f, err := strconv.ParseFloat(s, 64); err == nil && f == math.Trunc(f) && math.Abs(f) < 1<<53 {
			return int(f), false, true
		}
	}
	return 0, false, false
}

func floatValue(s string) (v float64, must, may bool) {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return 0, false, false
	}
	return v, refjson.IsNumber(s), true
}

func boolValue(s string) (v, must, may bool) {
	return s == "true", s == "true" || s == "false", s == "true" || s == "false"
}

func has(codes []int, k int) bool {
	for _, x := range codes {
		if x == k {
			return true
		}
	}
	return false
}

func parseErr(c *C, what string, err error, codes ...int) {
	if k := codeOf(c, err); !has(codes, k) {
		c.Failf("%s fails with %q (code %d), want code %v", what, err, k, codes)
	}
}

// getters in the three forms
type form struct {
	name string
	doc  []byte
	jo   *jin.JO
	ps   *jin.Parser
}

func forms(c *C, d *gen.Doc) []form {
	p, err := jin.Parse(append([]byte(nil), d.Text...))
	if err != nil {
		c.Failf("Parse fails: %v", err)
	}
	return []form{{"", d.Text, nil, nil}, {"JO ", nil, jin.New(append([]byte(nil), d.Text...)), nil}, {"Parser ", nil, nil, p}}
}

func (f *form) getInt(p []string) (int, error) {
	switch {
	case f.jo != nil:
		return f.jo.GetInt(p...)
	case f.ps != nil:
		return f.ps.GetInt(p...)
	}
	return jin.GetInt(f.doc, p...)
}

func (f *form) getFloat(p []string) (float64, error) {
	switch {
	case f.jo != nil:
		return f.jo.GetFloat(p...)
	case f.ps != nil:
		return f.ps.GetFloat(p...)
	}
	return jin.GetFloat(f.doc, p...)
}

func (f *form) getBool(p []string) (bool, error) {
	switch {
	case f.jo != nil:
		return f.jo.GetBool(p...)
	case f.ps != nil:
		return f.ps.GetBool(p...)
	}
	return jin.GetBool(f.doc, p...)
}

func (f *form) getStringArray(p []string) ([]string, error) {
	switch {
	case f.jo != nil:
		return f.jo.GetStringArray(p...)
	case f.ps != nil:
		return f.ps.GetStringArray(p...)
	}
	return jin.GetStringArray(f.doc, p...)
}

func (f *form) getIntArray(p []string) ([]int, error) {
	switch {
	case f.jo != nil:
		return f.jo.GetIntArray(p...)
	case f.ps != nil:
		return f.ps.GetIntArray(p...)
	}
	return jin.GetIntArray(f.doc, p...)
}

func (f *form) getFloatArray(p []string) ([]float64, error) {
	switch {
	case f.jo != nil:
		return f.jo.GetFloatArray(p...)
	case f.ps != nil:
		return f.ps.GetFloatArray(p...)
	}
	return jin.GetFloatArray(f.doc, p...)
}

func (f *form) getBoolArray(p []string) ([]bool, error) {
	switch {
	case f.jo != nil:
		return f.jo.GetBoolArray(p...)
	case f.ps != nil:
		return f.ps.GetBoolArray(p...)
	}
	return jin.GetBoolArray(f.doc, p...)
}

func checkScalarGetters(c *C, d *gen.Doc, nodes []*refjson.Node) {
	for _, f := range forms(c, d) {
		for _, n := range nodes {
			p, s := n.Path(), n.Text(d.Text)
			if n.Parent == nil {
				s = string(d.Text)
			}
			what := func(g string) string { return fmt.Sprintf("%s%s %q (text %q)", f.name, g, p, clipS(s)) }
			iv, err := f.getInt(p)
			want, must, may := intValue(s)
			switch {
			case err == nil && (!may || iv != want):
				c.Failf("%s = %d", what("GetInt"), iv)
			case err != nil && must:
				c.Failf("%s fails: %v", what("GetInt"), err)
			case err != nil:
				parseErr(c, what("GetInt"), err, jin.ErrCodeIntegerParse)
			}
			fv, err := f.getFloat(p)
			fw, must, may := floatValue(s)
			same := math.Float64bits(fv) == math.Float64bits(fw) || math.IsNaN(fv) && math.IsNaN(fw)
			switch {
			case err == nil && (!may || !same):
				c.Failf("%s = %g", what("GetFloat"), fv)
			case err != nil && must:
				c.Failf("%s fails: %v", what("GetFloat"), err)
			case err != nil:
				parseErr(c, what("GetFloat"), err, jin.ErrCodeFloatParse)
			}
			bv, err := f.getBool(p)
			bw, must, may := boolValue(s)
			switch {
			case err == nil && (!may || bv != bw):
				c.Failf("%s = %v", what("GetBool"), bv)
			case err != nil && must:
				c.Failf("%s fails: %v", what("GetBool"), err)
			case err != nil:
				parseErr(c, what("GetBool"), err, jin.ErrCodeBoolParse)
			}
		}
	}
}

// drawArrayText draws an array text with elements of one class, or mixed.
func drawArrayText(c *C) string {
	c.Begin()
	defer c.End()
	class := c.N(7)
	ws := func() string {
		return []string{"", " ", "\n\t", " \r\n "}[c.Weighted(70, 15, 10, 5)]
	}
	n := c.Size([]int{8, 40}[c.Weighted(90, 10)])
	ctr := c.Mark()
	odd := -1 // one element of another class
	if n > 0 && c.N(4) == 3 {
		odd = c.N(n)
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		c.BeginItem(ctr)
		if i > 0 {
			sb.WriteString("," + ws())
		}
		k := class
		if i == odd {
			k = 6
		}
		switch k {
		case 0:
			sb.WriteString(strconv.FormatInt(drawInt64(c), 10))
		case 1:
			sb.WriteString(strconv.FormatFloat(drawFloat(c), "gfe"[c.N(3)], -1, 64))
		case 2:
			sb.WriteString([]string{"true", "false"}[c.N(2)])
		case 3:
			sb.WriteString(`"` + gen.Str(c, c.N(20) == 19) + `"`)
		case 4:
			sb.WriteString(gen.Value(c))
		case 5: // quoted scalars
			sb.WriteString([]string{`"1"`, `"-2"`, `"true"`, `"false"`, `"1.5"`, `" 1"`, `"x"`}[c.N(7)])
		case 6:
			sb.WriteString(drawScalarText(c))
		}
		sb.WriteString(ws())
		c.End()
	}
	body := sb.String()
	k := many(c)
	if c.Giant > 0 && n > 0 {
		k = (c.Giant+c.N(3*n))/n + 1
		c.Giant = 0
	}
	if n > 0 && k > 1 {
		body = strings.Repeat(body+",", k-1) + body
	}
	return "[" + ws() + body + "]"
}

func checkArrayGetters(c *C, d *gen.Doc, nodes []*refjson.Node) {
	for _, f := range forms(c, d) {
		for _, n := range nodes {
			p := n.Path()
			raw := n.Raw(d.Text)
			what := func(g string) string { return fmt.Sprintf("%s%s %q (value %s)", f.name, g, p, clipS(raw)) }
			sa, serr := f.getStringArray(p)
			ia, ierr := f.getIntArray(p)
			fa, ferr := f.getFloatArray(p)
			ba, berr := f.getBoolArray(p)
			if n.Kind != refjson.Arr {
				t := strings.Trim(n.Text(d.Text), " \t\r\n")
				if strings.HasPrefix(t, "[") && strings.HasSuffix(t, "]") {
					continue // a string spelled like an array
				}
				for i, err := range []error{serr, ierr, ferr, berr} {
					g := []string{"GetStringArray", "GetIntArray", "GetFloatArray", "GetBoolArray"}[i]
					if err == nil {
						c.Failf("%s succeeds on something else than an array", what(g))
					}
					parseErr(c, what(g), err, []int{jin.ErrCodeStringArrayParse, jin.ErrCodeIntegerArrayParse, jin.ErrCodeFloatArrayParse, jin.ErrCodeBoolArrayParse}[i])
				}
				continue
			}
			texts := make([]string, len(n.Kids))
			for i, k := range n.Kids {
				texts[i] = k.Text(d.Text)
			}
			if serr != nil || !sameStrings(sa, texts) {
				c.Failf("%s = %q, %v, want %q", what("GetStringArray"), sa, serr, texts)
			}
			if pa := jin.ParseArray(raw); !sameStrings(pa, texts) {
				c.Failf("ParseArray(%q) = %q, want %q", clipS(raw), pa, texts)
			}
			im, fm, bm := true, true, true // must succeed
			for _, t := range texts {
				_, m, _ := intValue(t)
				im = im && m
				_, m, _ = floatValue(t)
				fm = fm && m
				_, m, _ = boolValue(t)
				bm = bm && m
			}
			bad := func(g string, err error, must bool, got, want int, codes ...int) bool {
				if err != nil {
					if must {
						c.Failf("%s fails: %v", what(g), err)
					}
					parseErr(c, what(g), err, codes...)
					return false
				}
				if got != want {
					c.Failf("%s returns %d elements, want %d", what(g), got, want)
				}
				return true
			}
			if bad("GetIntArray", ierr, im, len(ia), len(texts), jin.ErrCodeIntegerParse, jin.ErrCodeIntegerArrayParse) {
				for i, t := range texts {
					if w, _, may := intValue(t); !may || ia[i] != w {
						c.Failf("%s = %v: element %d (%q) is wrong", what("GetIntArray"), ia, i, t)
					}
				}
			}
			if bad("GetFloatArray", ferr, fm, len(fa), len(texts), jin.ErrCodeFloatParse, jin.ErrCodeFloatArrayParse) {
				for i, t := range texts {
					if w, _, may := floatValue(t); !may || math.Float64bits(w) != math.Float64bits(fa[i]) && !(math.IsNaN(w) && math.IsNaN(fa[i])) {
						c.Failf("%s = %v: element %d (%q) is wrong", what("GetFloatArray"), fa, i, t)
					}
				}
			}
			if bad("GetBoolArray", berr, bm, len(ba), len(texts), jin.ErrCodeBoolParse, jin.ErrCodeBoolArrayParse) {
				for i, t := range texts {
					if w, _, may := boolValue(t); !may || ba[i] != w {
						c.Failf("%s = %v: element %d (%q) is wrong", what("GetBoolArray"), ba, i, t)
					}
				}
			}
		}
	}
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// runStrings runs every string writer with one string at simple places.
func runStrings(c *C) {
	d := gen.New([]string{`{"o":{"k":1},"a":[1,2]}`, ` { "o" : { "k" : "v" } , "a" : [ "" , {} ] } `, `{"a":[[]],"o":{"k":{}}}`}[c.N(3)])
	s := drawStr(c)
	c.Note("%s with string %q", d.Text, s)
	if s != "" {
		c.NonTrivial()
	}
	for _, e := range editsOf(func(e *Edit) bool { return e.Val == vStr }) {
		a := &Args{Str: s, Key: "n"}
		switch e.Kind {
		case kSet:
			a.Path = []string{"o", "k"}
		case kAdd, kInsert:
			a.Path = []string{"a"}
		default:
			a.Path = []string{"o"}
			if e.Kind == kStore && c.N(2) == 1 {
				a.Key = "k"
			}
		}
		runTyped(c, d, e, a)
	}
}

func init() {
	typed := editsOf(func(e *Edit) bool { return e.Val != vRaw && e.Val != vNone })
	register(&engine.Prop{ID: "C13",
		Rule: "a random document, a typed edit function and arguments (boundary and random integers and floats, hostile and look-alike strings), possible or not; free, JO and Parser forms must give the spliced text with the value in JSON notation, and the typed getter must read the argument back. Non-trivial: the edit is possible.",
		Parts: []engine.Part{
			{Name: "typed", Quick: 60000, Thorough: 2000000, Run: func(c *C) {
				d := gen.SmallDoc(c)
				docCase(c, d)
				e := typed[c.N(len(typed))]
				a := drawEdit(c, d, e, 12)
				c.Note("%s", e.show(a))
				c.Label(e.Name)
				if e.apply(d.Val(), a) {
					c.NonTrivial()
				}
				runTyped(c, d, e, a)
			}},
			{Name: "strings", Quick: 40000, Thorough: 1500000, Run: runStrings},
			{Name: "numbers", Quick: 30000, Thorough: 1500000, Run: func(c *C) {
				d := gen.New(`{"o":{"k":"v"},"a":["x"]}`)
				a := &Args{I: int(drawInt64(c)), I64: drawInt64(c), U: uint(drawUint64(c)), U64: drawUint64(c), F: drawFloat(c), B: c.N(2) == 1, Key: "n"}
				a.I32, a.U32 = int32(drawInt64(c)), uint32(drawUint64(c))
				c.Note("%d %d %d %d %d %d %g %v", a.I, a.I32, a.I64, a.U, a.U32, a.U64, a.F, a.B)
				c.NonTrivial()
				for _, e := range typed {
					if e.Val == vStr {
						continue
					}
					b := cloneArgs(a)
					switch e.Kind {
					case kSet:
						b.Path = []string{"o", "k"}
					case kAdd, kInsert:
						b.Path = []string{"a"}
					default:
						b.Path = []string{"o"}
					}
					runTyped(c, d, e, b)
				}
			}},
			{Name: "giant", Heavy: true, Quick: 600, Thorough: 6000, Run: func(c *C) {
				c.Giant = []int{1 << 10, 1 << 12, 1 << 16}[c.N(3)]
				runStrings(c)
			}},
		}})

	register(&engine.Prop{ID: "C14",
		Rule: "a random document in which one value is replaced by a drawn scalar text (boundary integers, exponents, quoted and look-alike numbers, booleans, other scalars, containers); GetInt, GetFloat and GetBool in free, JO and Parser form at that value and at others, against strconv on the reference text. Non-trivial: the drawn text is a number or boolean or spells one.",
		Parts: []engine.Part{
			{Name: "one", Quick: 60000, Thorough: 2000000, Run: func(c *C) {
				d := gen.SmallDoc(c)
				n := gen.PickNode(c, d.Root.All(), gen.NotRoot)
				if n == nil {
					c.Discard()
				}
				s := drawScalarText(c)
				d, n = replaceNode(d, n, s)
				c.Note("%s at %q", d.Text, n.Path())
				t := n.Text(d.Text)
				_, _, i := intValue(t)
				_, _, f := floatValue(t)
				_, _, b := boolValue(t)
				if i || f || b {
					c.NonTrivial()
				}
				c.LabelIf(n.Kind == refjson.Str, "string")
				checkScalarGetters(c, d, append([]*refjson.Node{n}, sampleNodes(c, d.Root.All(), 3)...))
			}},
			{Name: "all", Quick: 15000, Thorough: 600000, Run: func(c *C) {
				d := gen.RandomDoc(c)
				all := docCase(c, d)
				if len(all) > 3 {
					c.NonTrivial()
				}
				checkScalarGetters(c, d, sampleNodes(c, all, 30))
			}},
		}})

	register(&engine.Prop{ID: "C15",
		Rule: "a random document in which one value is replaced by a drawn array (integers, floats, booleans, hostile strings, arbitrary values, quoted scalars, or one class with one odd element; any whitespace); all array getters in free, JO and Parser form there and elsewhere, and ParseArray. Non-trivial: the array has 2 elements or more.",
		Parts: []engine.Part{
			{Name: "one", Quick: 60000, Thorough: 2000000, Run: func(c *C) {
				d := gen.SmallDoc(c)
				n := gen.PickNode(c, d.Root.All(), nil)
				s := drawArrayText(c)
				d, n = replaceNode(d, n, s)
				c.Note("%s at %q", d.Text, n.Path())
				if len(n.Kids) > 1 {
					c.NonTrivial()
				}
				c.LabelIf(len(n.Kids) == 0, "empty array")
				checkArrayGetters(c, d, append([]*refjson.Node{n}, sampleNodes(c, d.Root.All(), 3)...))
			}},
			{Name: "all", Quick: 15000, Thorough: 600000, Run: func(c *C) {
				d := gen.RandomDoc(c)
				all := docCase(c, d)
				if len(all) > 3 {
					c.NonTrivial()
				}
				checkArrayGetters(c, d, sampleNodes(c, all, 30))
			}},
			{Name: "small", Exhaustive: true, Quick: 60000, Thorough: 3000000, Run: func(c *C) {
				d := tinyArgs(c)
				all := docCase(c, d)
				if len(all) > 3 {
					c.NonTrivial()
				}
				checkArrayGetters(c, d, all)
			}},
			{Name: "giant", Heavy: true, Quick: 200, Thorough: 3000, Run: func(c *C) {
				c.Giant = []int{1 << 10, 1 << 12, 1 << 14, 1 << 16}[c.N(4)]
				s := drawArrayText(c)
				d := gen.New([]string{s, "[0," + s + "]", `{"a":` + s + `,"b":[]}`}[c.N(3)])
				c.Note("%s", d.Text)
				c.NonTrivial()
				checkArrayGetters(c, d, sampleNodes(c, d.Root.All(), 2))
			}},
		}})
}
