BUGS = []
def B(**k): BUGS.append(k)
B(id='c20-walk-memo', property='C20', edits=[('parse_utils.go', '''type Parser struct {
	core *node
	json []byte
}
''', '''type Parser struct {
	core *node
	json []byte
	lock sync.Mutex
	seen map[string]*node
}

// find looks a path up, and remembers the node for the next time.
func (p *Parser) find(path []string) (*node, error) {
	if len(path) < 2 {
		return p.core.walk(path)
	}
	p.lock.Lock()
	defer p.lock.Unlock()
	name := strings.Join(path, "")
	if n, ok := p.seen[name]; ok {
		return n, nil
	}
	n, err := p.core.walk(path)
	if err == nil {
		if p.seen == nil {
			p.seen = map[string]*node{}
		}
		p.seen[name] = n
	}
	return n, err
}
'''), ('parse_utils.go', '''import (
	"fmt"
)''', '''import (
	"fmt"
	"strings"
	"sync"
)'''), ('parse_utils.go', '''	p.core, p.json = pars.core, pars.json
''', '''	p.core, p.json = pars.core, pars.json
	p.seen = nil
'''), ('parse_get.go', '''		return p.json, nil
	}
	curr, err := p.core.walk(path)
''', '''		return p.json, nil
	}
	curr, err := p.find(path)
''')],
  needs='two paths whose steps, written one behind the other, are the same, such as 1,11 and 11,1', breaks='the second one gives the value of the first',
  demo='''
	row := "[0,1,2,3,4,5,6,7,8,9,10,11]"
	doc := "[" + row
	for i := 1; i < 12; i++ {
		doc += strings.Replace("," + row, "11]", fmt.Sprint(1000+i, "]"), 1)
	}
	p, err := jin.Parse([]byte(doc + "]"))
	if err != nil {
		fail("%v", err)
	}
	for _, q := range [][]string{{"1", "11"}, {"11", "1"}} {
		w, _ := jin.Get([]byte(doc+"]"), q...)
		if v, err := p.Get(q...); err != nil || string(v) != string(w) {
			fail("%q: %q %v, want %q", q, v, err, w)
		}
	}''', imports=['strings', 'fmt'])
B(id='c11-parser-delete-reuse', property='C11', edits=[('parse_delete.go', '''	return p.update(json)
''', '''	// what an edit has made is ours to use again
	if p.owned {
		json = p.json[:copy(p.json, json)]
	}
	p.owned = true
	return p.update(json)
'''), ('parse_utils.go', '''type Parser struct {
	core *node
	json []byte
}
''', '''type Parser struct {
	core  *node
	json  []byte
	owned bool
}
''')],
  needs='a Parser with two deletions, and its text or a value from between them', breaks='the second deletion writes over what JSON and Get gave before',
  demo='''
	p, _ := jin.Parse([]byte(`{"a":1,"b":[1,2,3],"c":"text"}`))
	p.Delete("a")
	was := p.JSON()
	v, _ := p.Get("c")
	p.Delete("b", "0")
	if string(was) != `{"b":[1,2,3],"c":"text"}` || string(v) != "text" {
		fail("%q %q", was, v)
	}''')
B(id='c16-level-int8', property='C16', edits=[('inter_iter.go', '''	empty := true
	inQuote := false
	level := 0
''', '''	empty := true
	inQuote := false
	level := int8(0)
''')],
  needs='an array element that is nested more than 256 deep, with two entries there', breaks='its inner entries are handed out as elements',
  demo='''
	in := strings.Repeat("[", 256) + "1" + strings.Repeat("]", 256)
	n := 0
	jin.IterateArray([]byte("["+in+",2]"), func(v []byte) (bool, error) {
		if n++; n == 1 && string(v) != in {
			fail("%q", v)
		}
		return true, nil
	})
	if n != 2 {
		fail("%d", n)
	}''', imports=['strings'])
B(id='c01-array-level-byte', property='C01', edits=[('inter_core.go', '''				// Brace level every brace increments the level
				level := 0
''', '''				// Brace level every brace increments the level
				var level uint8
''')],
  needs='an array with an element nested 256 deep or more, before the one looked up', breaks='commas in there count as those of the array',
  demo='''
	in := strings.Repeat("[", 256) + "7,8,9" + strings.Repeat("]", 256)
	if v, err := jin.Get([]byte("["+in+",2,3]"), "1"); err != nil || string(v) != "2" {
		fail("%q %v", v, err)
	}''', imports=['strings'])
B(id='c20-parse-depth', property='C20', edits=[('parse_core.go', '''				indexList.push(0)
				braceList.push(i)
''', '''				braceList.push(i)
				// no document is meant to be that deep
				if indexList.push(0); indexList.index > 10001 {
					return errBadJSON(i)
				}
''')],
  needs='a document nested more than 10000 deep', breaks='it is not parsed',
  demo='''
	if _, err := jin.Parse([]byte(strings.Repeat("[", 10001) + strings.Repeat("]", 10001))); err != nil {
		fail("%v", err)
	}''', imports=['strings'])
B(id='c24-flatten-parallel', property='C24', edits=[('others.go', '''func Flatten(json []byte) []byte {
	newJSON := make([]byte, 0, len(json))
	inQuote := false
''', '''func Flatten(json []byte) []byte {
	// large documents are done in two halves, which meet at a comma
	if half := len(json) / 2; half >= 1<<19 {
		for half < len(json) && (json[half] != 44 || json[half-1] != 34) {
			half++
		}
		if half < len(json) {
			second := make(chan []byte)
			go func() { second <- Flatten(json[half:]) }()
			first := Flatten(json[:half])
			return append(first, <-second...)
		}
	}
	newJSON, inQuote := make([]byte, 0, len(json)), false
''')],
  needs='a document of more than a megabyte with an escaped quote and a comma in a string behind its middle', breaks='space in strings is removed behind there, and kept between them',
  demo='''
	s := strings.Repeat("x \\\\\\", ", 300000)
	doc := []byte(`["a", "` + s + `", "b c"]`)
	if string(jin.Flatten(doc)) != `["a","` + s + `","b c"]` {
		fail("changed")
	}''', imports=['strings'])
B(id='c13-set-float-whole', property='C13', edits=[('inter_set.go', '''	return Set(json, []byte(strconv.FormatFloat(newValue, 'f', -1, 64)), path...)
''', '''	text := strconv.FormatFloat(newValue, 'f', -1, 64)
	// whole numbers need no more than this
	if whole := int64(newValue); float64(whole) == newValue {
		text = strconv.FormatInt(whole, 10)
	}
	return Set(json, []byte(text), path...)
''')],
  needs='SetFloat of minus zero', breaks='the sign is lost',
  demo='''
	out, err := jin.SetFloat([]byte(`{"a":1}`), math.Copysign(0, -1), "a")
	if f, e := jin.GetFloat(out, "a"); err != nil || e != nil || f != 0 || !math.Signbit(f) {
		fail("%q %v", out, err)
	}''', imports=['math'])
B(id='c23-jo-length-memo', property='C23', edits=[('jin_object.go', '''type JO struct {
	body []byte
}
''', '''type JO struct {
	body  []byte
	types map[string]string
	size  int
}
'''), ('jin_object_get.go', '''	return GetType(j.body, path...)
''', '''	if j.size != len(j.body) || j.types == nil {
		j.types, j.size = map[string]string{}, len(j.body)
	}
	name := fmt.Sprint(path)
	if t, ok := j.types[name]; ok {
		return t, nil
	}
	t, err := GetType(j.body, path...)
	if err == nil {
		j.types[name] = t
	}
	return t, err
'''), ('jin_object_get.go', '''package jin
''', '''package jin

import "fmt"
''')],
  needs='JO.GetType, an edit that keeps the length of the text and changes the type, JO.GetType again', breaks='the type of before is given',
  demo='''
	j := jin.New([]byte(`{"a":1234}`))
	j.GetType("a")
	j.Set([]byte("null"), "a")
	if t, err := j.GetType("a"); err != nil || t != "null" {
		fail("%q %v", t, err)
	}''')
B(id='c22-tree-builder', property='C22', edits=[('parse_utils.go', '''	str := ""
	p.core.createTree(p.json, 0, false, &str)
	return str
''', '''	str := ""
	if p.tree != "" && len(p.json) == len(p.drawn) {
		// labels can only have changed along with the length
		return p.tree
	}
	p.core.createTree(p.json, 0, false, &str)
	p.tree, p.drawn = str, p.json
	return str
'''), ('parse_utils.go', '''type Parser struct {
	core *node
	json []byte
}
''', '''type Parser struct {
	core  *node
	json  []byte
	tree  string
	drawn []byte
}
''')],
  needs='Tree, an edit that keeps the length of the text and changes a key or the shape, and Tree again', breaks='the tree of before is given',
  demo='''
	p, _ := jin.Parse([]byte(`{"a":1}`))
	p.Tree()
	p.SetKey("b", "a")
	if q, _ := jin.Parse([]byte(`{"b":1}`)); p.Tree() != q.Tree() {
		fail("%q", p.Tree())
	}''')
B(id='c17-getmap-path', property='C17', edits=[], needs='', breaks='', demo='')
BUGS.pop()
