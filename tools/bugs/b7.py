BUGS = []
def B(**k): BUGS.append(k)
B(id='c24-flatten-chunk', property='C24', edits=[('others.go', '''	newJSON := make([]byte, 0, len(json))
	inQuote := false
	for i := 0; i < len(json); i++ {
		curr := json[i]
		if curr == 92 {
			newJSON = append(newJSON, curr)
''', '''	newJSON := make([]byte, 0, len(json))
	inQuote := false
	// runs of plain text inside a string are copied in blocks
	block, size := 0, len(json)
	for i := 0; i < size; i++ {
		curr := json[i]
		if inQuote && block == 0 && len(json)-i > 4096 {
			end := bytes.IndexByte(json[i:i+4096], 34)
			if end == -1 {
				newJSON = append(newJSON, json[i:i+4096]...)
				i += 4095
				continue
			}
			block = end + 1
		}
		if block > 0 {
			block--
		}
		if curr == 92 {
			newJSON = append(newJSON, curr)
''') , ('others.go', '''package jin
''', '''package jin

import "bytes"
''')],
  needs='a string without a quote for 4096 bytes whose 4096th is a backslash (followed by a quote)', breaks='Flatten takes the escaped quote for the end of the string',
  demo='''
	doc := `{"k":"` + strings.Repeat("x", 4095) + `\\" , b","c": 1}`
	want := `{"k":"` + strings.Repeat("x", 4095) + `\\" , b","c":1}`
	for i := 0; i < 8; i++ {
		d, w := doc[:6]+strings.Repeat("y", 4096*i)+doc[6:], want[:6]+strings.Repeat("y", 4096*i)+want[6:]
		if s := string(jin.Flatten([]byte(d+strings.Repeat(" ", 5000)))); s != w {
			fail("%d", i)
		}
	}''', imports=['strings'])
B(id='c28-checkabs-sorts', property='C28', edits=[('make.go', '''	for i := 0; i < len(keys); i++ {
		has := false
		key := keys[i]
''', '''	if len(keys) > 16 {
		sort.Strings(keys)
		sort.Strings(s.keys)
		for i := range keys {
			if keys[i] != s.keys[i] {
				return false
			}
		}
		return true
	}
	for i := range keys {
		has := false
		key := keys[i]
'''), ('make.go', '''	"strconv"
)
''', '''	"sort"
	"strconv"
)
''')],
  needs='CheckAbs with a scheme of more than 16 keys that are not in order', breaks='it sorts the keys of the scheme',
  demo='''
	var keys []string
	doc := []byte("{}")
	for i := 0; i < 20; i++ {
		k := fmt.Sprint("k", 40-i)
		keys = append(keys, k)
		doc, _ = jin.AddKeyValueInt(doc, k, i)
	}
	s := jin.MakeScheme(keys...)
	if !s.CheckAbs(doc) {
		fail("CheckAbs")
	}
	if got := s.GetCurrentKeys(); fmt.Sprint(got) != fmt.Sprint(keys) {
		fail("%v", got)
	}''')
B(id='c27-index', property='C27', edits=[('make.go', '''	originalKeys []string
	keys         []string
}
''', '''	originalKeys, keys []string
	// index of the keys of a large scheme
	index map[string]bool
}
'''), ('make.go', '''	for _, k := range s.keys {
		if k == key {
			return false
		}
	}
''', '''	if len(s.keys) >= 32 {
		if len(s.index) != len(s.keys) {
			s.index = make(map[string]bool, len(s.keys))
			for _, k := range s.keys {
				s.index[k] = true
			}
		}
		if s.index[key] {
			return false
		}
		s.index[key] = true
		s.keys = appendPath(s.keys, key)
		return true
	}
	for _, k := range s.keys {
		if k == key {
			return false
		}
	}
''')],
  needs='a scheme of 32 keys or more: Add, then a change to as many other keys (Save, Add, Restore, Add …), then Add', breaks='Add judges by an index of former keys',
  demo='''
	s := jin.MakeScheme()
	for i := 0; i < 40; i++ {
		s.Add(fmt.Sprint("k", i))
	}
	s.Save()
	s.Remove("k0")
	s.Add("z")
	s.Restore()
	if !s.Add("z") {
		fail("z: %v", s.GetCurrentKeys())
	}''')
B(id='c02-errequal-first', property='C02', edits=[('errors.go', '''	if len(str) < 2 {
		return false
	}
	codeStr := str[len(str)-2:]
''', '''	i := strings.Index(str, "error_code: ")
	if i == -1 || len(str) < i+14 {
		return false
	}
	codeStr := str[i+12 : i+14]
'''), ('errors.go', '''	"strconv"
)
''', '''	"strconv"
	"strings"
)
''')],
  needs='the error about a key that itself holds the text of an error code', breaks='ErrEqual answers with the code inside the key',
  demo='''
	_, err := jin.Get([]byte(`{"a":1}`), "error_code: 07")
	if !jin.ErrEqual(err, jin.ErrCodeKeyNotFound) || jin.ErrEqual(err, jin.ErrCodeIndexOutOfRange) {
		fail("%v", err)
	}''')
B(id='c05-duplicate-scan', property='C05', edits=[('inter_add.go', '''		_, _, _, err = core(json, false, appendPath(path, key)...)
		if err != nil {
			if ErrEqual(err, ErrCodeKeyNotFound) {
''', '''		_, _, _, err = core(json, false, appendPath(path, key)...)
		if end-start > 1<<16 && err != nil && bytes.Contains(json[start:end], []byte(`"`+key+`":"`)) {
			// core gives up on some damaged documents, the key is there
			err = nil
		}
		if err != nil {
			if ErrEqual(err, ErrCodeKeyNotFound) {
'''), ('inter_add.go', '''import "strconv"
''', '''import (
	"bytes"
	"strconv"
)
''')], 
  needs='AddKeyValue to an object of more than 65536 bytes in which an inner object has the key, with a string', breaks='it refuses the key',
  demo='''
	doc := []byte(`{"a":{"k":"v"},"s":"` + strings.Repeat("x", 70000) + `"}`)
	if _, err := jin.AddKeyValue(doc, "k", []byte("1")); err != nil {
		fail("%v", err)
	}''', imports=['strings'])
B(id='c21-update-batch', property='C21', edits=[('parse_utils.go', '''type Parser struct {
	core *node
	json []byte
}
''', '''type Parser struct {
	core  *node
	json  []byte
	edits int // since the document was last copied
}
'''), ('parse_delete.go', '''	return p.update(json)
''', '''	p.edits++
	if n, err := p.core.walk(path); err == nil && p.edits > 20 && len(n.up.down) > 1 && n.up.down[len(n.up.down)-1] == n && n.up.up == p.core {
		// the last one of its siblings: no label changes
		n.up.down = n.up.down[:len(n.up.down)-1]
		p.json = json
		return nil
	}
	return p.update(json)
''')], nth={'parse_delete.go': 1},
  needs='a Parser with more than 20 deletions behind it, the last of them that of the last entry of a container one level down', breaks='values read through the nodes of the containers above are the old ones',
  demo='''
	p, err := jin.Parse([]byte(`{"a":[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30]}`))
	if err != nil {
		fail("%v", err)
	}
	for i := 0; i < 25; i++ {
		n := len(mustArray(p))
		if err := p.Delete("a", strconv.Itoa(n-1)); err != nil {
			fail("%v", err)
		}
		if m := len(mustArray(p)); m != n-1 {
			fail("%d elements after deleting one of %d", m, n)
		}
	}''', imports=['strconv'], decls='''
func mustArray(p *jin.Parser) []string {
	a, err := p.GetStringArray("a")
	if err != nil {
		fail("%v", err)
	}
	return a
}
''')
B(id='c26-array-flush', property='C26', edits=[('make.go', '''	for _, v := range values {
		js = append(js, []byte(strconv.Itoa(v))...)
		js = append(js, 44)
	}
''', '''	var full []byte
	for i, v := range values {
		js = strconv.AppendInt(js, int64(v), 10)
		if len(js) > 1<<15 && i+1 < len(values) {
			// keep the buffer small
			full = append(full, js...)
			js = js[:0]
			continue
		}
		js = append(js, 44)
	}
	js = append(full, js...)
''')],
  needs='MakeArrayInt of values whose text is longer than 32768 bytes', breaks='a comma is lost in between',
  demo='''
	l := make([]int, 20000)
	if got, err := jin.GetIntArray(jin.MakeArrayInt(l)); err != nil || len(got) != len(l) {
		fail("%d %v", len(got), err)
	}''')
B(id='c26-string-large', property='C26', edits=[('make.go', '''	for i, k := range keys {
		js = append(js, 34)
		js = append(js, []byte(k)...)
		js = append(js, 34)
		js = append(js, 58)
		js = append(js, []byte(formatType(values[i]))...)
		js = append(js, 44)
	}
''', '''	for i, k := range keys {
		js = append(js, 34)
		js = append(js, []byte(k)...)
		js = append(js, 34)
		js = append(js, 58)
		if v := values[i]; len(v) > 1024 && v[0] != 34 {
			// long text, no need to look at it
			js = append(js, 34)
			js = append(js, v...)
			js = append(js, 34)
		} else {
			js = append(js, []byte(formatType(v))...)
		}
		js = append(js, 44)
	}
''')],
  needs='MakeJsonString with the text of an array or object longer than 1024 bytes', breaks='it is put into quotes',
  demo='''
	v := "[" + strings.Repeat("1,", 1000) + "1]"
	s := jin.MakeJsonString([]string{"a"}, []string{v})
	if ok, err := jin.IsArray(s, "a"); err != nil || !ok {
		fail("%v %v", ok, err)
	}''', imports=['strings'])
B(id='c13-long-text', property='C13', edits=[('inter_add.go', '''func AddString(json []byte, value string, path ...string) ([]byte, error) {
	return Add(json, []byte(formatType(value)), path...)
''', '''func AddString(json []byte, value string, path ...string) ([]byte, error) {
	text := value
	if len(value) <= 1<<14 {
		text = formatType(value)
	} else if value[0] != 123 && value[0] != 91 {
		text = `"` + value + `"`
	}
	return Add(json, []byte(text), path...)
''')],
  needs='AddString of a text longer than 16384 bytes that begins with a brace and is not JSON, or is quoted', breaks='the document is no longer well-formed',
  demo='''
	v := "[" + strings.Repeat("x", 20000)
	s, err := jin.AddString([]byte(`[1]`), v)
	if err != nil || !json.Valid(s) {
		fail("%v", err)
	}''', imports=['strings', 'encoding/json'])
B(id='c15-int-array-growth', property='C15', edits=[('inter_get.go', '''	if val[0] == 91 && val[lena-1] == 93 {
		newArray := make([]int, 0, 16)
''', '''	if val[0] == 91 && val[lena-1] == 93 {
		var newArray []int
		if lena > 1<<13 {
			newArray = make([]int, 0, strings.Count(val, ",")+1)
			// long lists hold plain numbers
			for _, s := range strings.Split(val[1:lena-1], ",") {
				num, err := strconv.Atoi(strings.Trim(s, " \\t\\n\\""))
				if err != nil {
					return nil, errIntegerParse(s)
				}
				newArray = append(newArray, num)
			}
			return newArray, nil
		}
''')], 
  needs='GetIntArray of a list longer than 8192 bytes with CR in its whitespace', breaks='it fails',
  demo='''
	v := "[" + strings.Repeat("1,\\r\\n", 4000) + "1]"
	if l, err := jin.GetIntArray([]byte(v)); err != nil || len(l) != 4001 {
		fail("%v", err)
	}''', imports=['strings'])
B(id='c14-float-digits', property='C14', edits=[('parse_get.go', '''	floatVal, err := strconv.ParseFloat(val, 64)
	if err != nil {
		return -1, errFloatParse(val)
	}
''', '''	if i := strings.IndexByte(val, '.'); i > -1 && len(val) > i+40 && strings.IndexByte(val, 'e') == -1 {
		// digits that far behind the point do not count
		val = val[:i+40]
	}
	var floatVal float64
	floatVal, err = strconv.ParseFloat(val, 64)
	if err != nil {
		return -1, errFloatParse(val)
	}
''')],
  needs='Parser.GetFloat of a number with more than 39 digits behind the point that is tiny', breaks='it reads as 0 or too small',
  demo='''
	p, err := jin.Parse([]byte(`[0.` + strings.Repeat("0", 60) + `12]`))
	if err != nil {
		fail("%v", err)
	}
	if f, err := p.GetFloat("0"); err != nil || f != 12e-62 {
		fail("%g %v", f, err)
	}''', imports=['strings'])
B(id='c12-indent-tabs', property='C12', edits=[('utils.go', '''func createTabs(n int) []byte {
	res := make([]byte, n)
	for i := range res {
		res[i] = 9
	}
	return res
}
''', '''func createTabs(n int) []byte {
	for len(tabs) < n {
		tabs = append(tabs, 9)
	}
	return tabs[:n:n]
}

var tabs = []byte("\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t")
''')], race=True,
  needs='two goroutines in Indent, on documents deeper than 16', breaks='they append to one shared slice (a data race)',
  demo='''
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			doc := strings.Repeat("[", 400) + strings.Repeat("]", 400)
			for i := 0; i < 20; i++ {
				jin.Indent([]byte(doc))
			}
		}(g)
	}
	wg.Wait()''', imports=['strings', 'sync'])
B(id='c23-readfile-dir', property='C23', edits=[('jin_object.go', '''func ReadJSONFile(path string) (*JO, error) {
	content, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return &JO{body: content}, nil
}
''', '''func ReadJSONFile(path string) (*JO, error) {
	content, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}
	// lines may end as on other systems
	content = bytes.ReplaceAll(content, []byte("\\r\\n"), []byte("\\n"))
	return &JO{body: content}, nil
}
'''), ('jin_object.go', '''import "io/ioutil"
''', '''import (
	"bytes"
	"io/ioutil"
)
''')],
  needs='ReadJSONFile of a file with CR LF', breaks='the JO has other bytes than the file',
  demo='''
	f := os.Getenv("TMPDIR") + "/x.json"
	os.WriteFile(f, []byte("{\\r\\n\\"a\\":1}"), 0o600)
	j, err := jin.ReadJSONFile(f)
	if err != nil || j.String() != "{\\r\\n\\"a\\":1}" {
		fail("%v", err)
	}''', imports=['os'])
B(id='c09-add-trailing', property='C09', edits=[('inter_add.go', '''			if !space(json[i]) {
				if json[i] == 93 {
					end = i + 1
''', '''			if b := json[i]; !space(b) {
				if b == 93 {
					if len(json)-i > 64 {
						// drop a long tail of spaces
						json = json[:i+1]
					}
					end = i + 1
''')], nth={'inter_add.go': 1},
  needs='Add that fails or succeeds on a root array with more than 64 bytes of space behind it', breaks='the space behind the array is dropped',
  demo='''
	doc := []byte("[1]" + strings.Repeat(" ", 100))
	s, err := jin.Add(doc, []byte("2"))
	if err != nil || len(s) != len(doc)+2 {
		fail("%v %q", err, s)
	}''', imports=['strings'])
