BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c01-key-compare-words', property='C01',
 edits=[('inter_core.go', '''								for j := 0; j < len(currentPath); j++ {
									if currentPath[j] != json[start+j] {
										same = false
										break
									} else {
										continue
									}
								}
''', '''								for j := 0; j < len(currentPath); j += 4 {
									// four bytes at a time
									if j+4 <= len(currentPath) {
										if currentPath[j:j+4] != string(json[start+j:start+j+4]) {
											same = false
											break
										}
										continue
									}
									// the rest, from the end
									if j == 0 || len(currentPath)-j > 1 {
										same = same && currentPath[j:] == string(json[start+j:end])
									}
								}
''')],
 needs='two keys of the same object of length 4n+1 (n > 0) that differ in the last byte only, the earlier one not being the asked one',
 breaks='Get returns the value of another key: the last byte of a key of length 4n+1 is not compared',
 demo='''
	doc := []byte(`{"item1":1,"item2":2,"item3":3}`)
	for i := 1; i <= 3; i++ {
		v, err := jin.Get(doc, fmt.Sprintf("item%d", i))
		if err != nil || string(v) != fmt.Sprint(i) {
			fail("item%d: %q %v", i, v, err)
		}
	}
''')

bug(id='c02-errequal-suffix', property='C02',
 imports=[],
 edits=[('errors.go', '''	codeStr := str[len(str)-2:]
	c, err := strconv.Atoi(codeStr)
	if err != nil {
		return false
	}
	return c == code
''', '''	return strings.HasSuffix(str, strconv.Itoa(code))
'''), ('errors.go', '''	"strconv"
''', '''	"strconv"
	"strings"
''')],
 needs='an error whose two-digit code ends with the digits of the asked code, e.g. a parse error (12) tested for EmptyArray (2)',
 breaks='ErrEqual takes errors of codes 12..18 for those of codes 2..8',
 demo='''
	_, err := jin.GetInt([]byte(`{"a":"x"}`), "a")
	if !jin.ErrEqual(err, jin.ErrCodeIntegerParse) || jin.ErrEqual(err, jin.ErrCodeEmptyArray) {
		fail("an integer parse error is taken for an empty array")
	}
''')

bug(id='c03-string-end-backslash', property='C03',
 edits=[('inter_core.go', '''				curr := json[i]
				if curr == 92 {
					i++
					continue
				} else {
					// find ending quote
					if curr == 34 {
						// just interested with json chars. Other wise continue.
						return keyStart, offset + 1, i, nil
					}
				}
''', '''				// find ending quote
				if json[i] == 34 && (json[i-1] != 92 || json[i-2] == 92) {
					// just interested with json chars. Other wise continue.
					return keyStart, offset + 1, i, nil
				}
''')],
 needs='a string value in which a quote follows three (or any odd number above one of) backslashes',
 breaks='the string is taken to end inside, so Get is truncated and Set leaves its tail behind',
 demo='''
	doc := []byte(`{"a":"x\\\\\\\\\\\\\\\\\\"y","b":2}`)
	doc = []byte("{\\"a\\":\\"x\\\\\\\\\\\\\\"y\\",\\"b\\":2}")
	out, err := jin.Set(doc, []byte("7"), "a")
	if err != nil || string(out) != `{"a":7,"b":2}` {
		fail("%s: %s %v", doc, out, err)
	}
''')

bug(id='c05-empty-object-blank', property='C05',
 edits=[('inter_add.go', '''		for i := start + 1; i < end-1; i++ {
			if !space(json[i]) {
				empty = false
			}
		}
		if empty {
			val := []byte(`"` + key''', '''		for i := start + 1; i < end-1; i++ {
			if json[i] > 32 || json[i] == 9 {
				empty = false
			}
		}
		if empty {
			val := []byte(`"` + key''')],
 needs='an object that is empty but for a tab',
 breaks='AddKeyValue puts a comma before the first member of the object: not well-formed',
 demo='''
	out, err := jin.AddKeyValue([]byte("{\\n\\t\\"a\\":{\\n\\t}\\n}"), "k", []byte("1"), "a")
	if err != nil {
		fail("%v", err)
	}
	if p, err := jin.Get(out, "a", "k"); err != nil || string(p) != "1" || string(jin.Flatten(out)) != `{"a":{"k":1}}` {
		fail("%s: %q %v", out, p, err)
	}
''')

bug(id='c07-delete-last-multiline', property='C07',
 edits=[('inter_delete.go', '''	for i := start - 1; i > 0; i-- {
		if !space(json[i]) {
			startEdge = i
			break
		}
	}
''', '''	for i := start - 1; i > 0; i-- {
		if json[i] != 32 && json[i] != 10 && json[i] != 9 {
			startEdge = i
			break
		}
	}
''')],
 needs='deleting the last element or the only one of a container laid out with carriage returns',
 breaks='Delete fails on documents with Windows line ends',
 demo='''
	out, err := jin.Delete([]byte("{\\r\\n\\t\\"a\\": 1,\\r\\n\\t\\"b\\": 2\\r\\n}"), "b")
	if err != nil || string(jin.Flatten(out)) != `{"a":1}` {
		fail("%q %v", out, err)
	}
''')

bug(id='c08-store-empty-string', property='C08',
 edits=[('inter_set.go', '''		return replace(json, value, start-1, end+1), nil
	}
	return replace(json, value, start, end), nil
}

// StoreString''', '''		if start < end {
			start--
			end++
		}
	}
	return replace(json, value, start, end), nil
}

// StoreString''')],
 needs='storing over a member whose value is the empty string',
 breaks='the new value lands inside the quotes of the old one',
 demo='''
	out, err := jin.Store([]byte(`{"a":""}`), "a", []byte("5"))
	if err != nil || string(out) != `{"a":5}` {
		fail("%s %v", out, err)
	}
''')

bug(id='c10-insert-error-nil', property='C10',
 edits=[('inter_add.go', '''	_, start, end, err = core(json, false, appendPath(path, strconv.Itoa(index))...)
	if err != nil {
		return json, err
	}
	if json[start-1] == 34 {
		start--
	}
''', '''	_, start, end, err = core(json, false, appendPath(path, strconv.Itoa(index))...)
	if err != nil {
		return nil, err
	}
	if json[start-1] == 34 {
		start--
	}
''')],
 needs='an Insert with an index outside the array, on a JSON object (JO)',
 breaks='the failed Insert returns no document, so the JSON object loses its text',
 demo='''
	j := jin.New([]byte(`{"a":[1,2]}`))
	if err := j.Insert(5, []byte("3"), "a"); err == nil {
		fail("inserted out of range")
	}
	if j.String() != `{"a":[1,2]}` {
		fail("the document is lost: %q", j.String())
	}
''')

bug(id='c11-replace-in-place', property='C11',
 edits=[('utils.go', '''	newJSON := make([]byte, 0, len(json)-end+start+len(newValue))
	newJSON = append(newJSON, json[:start]...)
	newJSON = append(newJSON, newValue...)
''', '''	if len(newValue) == end-start && len(newValue) > 8 {
		// nothing moves
		copy(json[start:], newValue)
		return json
	}
	newJSON := append(make([]byte, 0, len(json)-end+start+len(newValue)), json[:start]...)
	newJSON = append(newJSON, newValue...)
''')],
 needs='a replacement as long as the replaced text, longer than eight bytes',
 breaks="the edit is done in the caller's buffer, earlier results change with it",
 demo='''
	doc := []byte(`{"name":"aaaaaaaaaa","b":2}`)
	keep := string(doc)
	out, err := jin.Set(doc, []byte(`"bbbbbbbbbb"`), "name")
	if err != nil || string(out) != `{"name":"bbbbbbbbbb","b":2}` {
		fail("%s %v", out, err)
	}
	if string(doc) != keep {
		fail("the argument was written to: %s", doc)
	}
''')

bug(id='c12-shared-char-table', property='C12', race=True, imports=['sync'],
 edits=[('inter_core.go', '''	chars := []byte{34, 44, 58, 91, 93, 123, 125}
	// creating a bool array fill with false
	isJSONChar := make([]bool, 256)
	// only interested chars is true
	for _, v := range chars {
		isJSONChar[v] = true
	}
''', '''	// the table is made once, a search that gave up may have left marks in it
	isJSONChar := jsonChars
	for _, v := range []byte{34, 44, 58, 91, 93, 123, 125} {
		isJSONChar[v] = true
	}
'''), ('inter_core.go', '''// Only this function commented''', '''var jsonChars = make([]bool, 256)

// Only this function commented''')],
 needs='two lookups at the same time in different goroutines, one of them switching a mark while the other scans',
 breaks='lookups share a table they write to: data race and wrong results',
 demo='''
	doc := []byte(`{"a":{"x":[1,2,3],"y":{"z":"v"}},"b":[{"c":1},{"c":2}]}`)
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				if v, err := jin.GetString(doc, "a", "y", "z"); err != nil || v != "v" {
					select {
					case bad <- fmt.Sprint(v, err):
					default:
					}
				}
				if v, err := jin.GetString(doc, "b", "1", "c"); err != nil || v != "2" {
					select {
					case bad <- fmt.Sprint(v, err):
					default:
					}
				}
			}
		}()
	}
	wg.Wait()
	select {
	case s := <-bad:
		fail("wrong answer: %s", s)
	default:
	}
''')

bug(id='c13-set-float-fixed', property='C13',
 edits=[('inter_set.go', '''	return Store(json, key, []byte(strconv.FormatFloat(newValue, 'f', -1, 64)), path...)
''', '''	if newValue == float64(int(newValue)) {
		return StoreInt(json, key, int(newValue), path...)
	}
	return Store(json, key, []byte(strconv.FormatFloat(newValue, 'g', -1, 64)), path...)
'''),('inter_set.go', '''	return Set(json, []byte(strconv.FormatFloat(newValue, 'f', -1, 64)), path...)
''', '''	return Set(json, strconv.AppendFloat(nil, newValue, 'f', 16, 64), path...)
''')],
 needs='SetFloat of a small number, with significant digits past the sixteenth decimal',
 breaks='the stored number reads back as another one',
 demo='''
	x := 1.2345678901e-9
	out, err := jin.SetFloat([]byte(`{"a":0}`), x, "a")
	if err != nil {
		fail("%v", err)
	}
	if y, err := jin.GetFloat(out, "a"); err != nil || y != x {
		fail("%s %v %v", out, y, err)
	}
''')

bug(id='c14-getint-via-float', property='C14',
 edits=[('inter_get.go', '''	intVal, err := strconv.Atoi(val)
	if err != nil {
		return -1, errIntegerParse(val)
	}
	return intVal, nil
''', '''	intVal, err := strconv.Atoi(val)
	if err != nil {
		// 1.0 and 1e3 are integers as well
		floatVal, err := strconv.ParseFloat(val, 64)
		if err != nil || floatVal != float64(int(floatVal)) {
			return -1, errIntegerParse(val)
		}
		return int(floatVal), nil
	}
	return intVal, nil
''')],
 needs='an integer outside the int range but within its float64 rounding, such as -9223372036854775809',
 breaks='GetInt returns another number instead of a parse error',
 demo='''
	n, err := jin.GetInt([]byte(`{"a":-9223372036854775809}`), "a")
	if err == nil {
		fail("got %d", n)
	}
	if n, err := jin.GetInt([]byte(`{"a":-9223372036854775808}`), "a"); err != nil || n != -9223372036854775808 {
		fail("%d %v", n, err)
	}
''')

bug(id='c15-floatarray-32', property='C15',
 edits=[('inter_get.go', '''						element := val[start:i]
						num, err := strconv.ParseFloat(cleanValueString(element), 64)
''', '''						element := val[start:i]
						num, err := strconv.ParseFloat(cleanValueString(element), 32)
''')],
 needs='a float array element, not the last, that needs more than 24 bits',
 breaks='elements lose precision or are refused',
 demo='''
	arr, err := jin.GetFloatArray([]byte(`{"a":[0.5,16777217,2]}`), "a")
	if err != nil || len(arr) != 3 || arr[1] != 16777217 {
		fail("%v %v", arr, err)
	}
''')

bug(id='c16-iterate-last-error', property='C16',
 edits=[('inter_iter.go', '''						_, innerError := callback(cleanValue(json[start:i]))
						return innerError
''', '''						callback(cleanValue(json[start:i]))
						return nil
''')],
 needs='a callback that fails at the last element of an array',
 breaks='its error is lost',
 demo='''
	n := 0
	err := jin.IterateArray([]byte(`[1,2,3]`), func(v []byte) (bool, error) {
		n++
		if string(v) == "3" {
			return true, fmt.Errorf("three")
		}
		return true, nil
	})
	if err == nil || err.Error() != "three" || n != 3 {
		fail("%v after %d calls", err, n)
	}
''')

bug(id='c17-length-quote-parity', property='C17',
 edits=[('others.go', '''			for n := i - 1; n > -1; n-- {
				if json[n] != 92 {
					if (i-n)%2 != 0 {
						inQuote = !inQuote
						break
					} else {
						break
					}
				}
				continue
			}
			continue
''', '''			if i > 0 && json[i-1] == 92 && !(i > 1 && json[i-2] == 92) {
				continue
			}
			inQuote = !inQuote
			continue
''')],
 needs='a string with an escaped quote after an escaped backslash',
 breaks='Length takes commas inside that string for separators',
 demo='''
	doc := []byte(`["a\\\\\\",,b",2]`)
	if n, err := jin.Length(doc); err != nil || n != 2 {
		fail("%s: %d %v", doc, n, err)
	}
''')

bug(id='c17-getmap-ten', property='C17',
 edits=[('inter_get.go', '''			mainMap[strconv.Itoa(count)] = string(val)
''', '''			mainMap[string(rune('0'+count))] = string(val)
''')],
 needs='GetMap on an array with more than ten elements',
 breaks='the keys from the eleventh element on are not its index',
 demo='''
	m, err := jin.GetMap([]byte(`[0,1,2,3,4,5,6,7,8,9,10,11]`))
	if err != nil || m["11"] != "11" {
		fail("%v %v", m, err)
	}
''')

bug(id='c20-walk-numeric-key', property='C20',
 edits=[('parse_utils.go', '''		for _, d := range n.down {
			if d.label == p {
				n = d
				goto cont
			}
		}
		return nil, errKeyNotFound(p)
''', '''		// elements are in order
		if i, err := strconv.Atoi(p); err == nil && i >= 0 && i < len(n.down) && len(n.down[i].label) == len(p) {
			n = n.down[i]
			goto cont
		}
		for i := range n.down {
			if n.down[i].label == p {
				n = n.down[i]
				goto cont
			}
		}
		return nil, errKeyNotFound(p)
'''), ('parse_utils.go', '''	"fmt"
''', '''	"fmt"
	"strconv"
''')],
 needs='an object whose keys are numbers, not in order',
 breaks='the Parser takes a numeric key for a position',
 demo='''
	p, err := jin.Parse([]byte(`{"1":"one","0":"zero"}`))
	if err != nil {
		fail("%v", err)
	}
	if v, err := p.GetString("0"); err != nil || v != "zero" {
		fail("%q %v", v, err)
	}
''')

bug(id='c20-sequence-growth', property='C20',
 edits=[('sequence.go', '''		newList := make([]int, s.length+4)
		copy(newList, s.list)
		s.list = newList
		s.length = s.length + 4
''', '''		s.list = append(s.list, make([]int, 4)...)
		s.length *= 2
''')],
 needs='a document nested more than twelve deep',
 breaks='Parse panics: the stack is taken to be larger than it is',
 demo='''
	doc := ""
	for i := 0; i < 20; i++ {
		doc += "["
	}
	doc += "1"
	for i := 0; i < 20; i++ {
		doc += "]"
	}
	if _, err := jin.Parse([]byte(doc)); err != nil {
		fail("%v", err)
	}
''')

bug(id='c22-tree-nested-last', property='C22',
 edits=[('parse_utils.go', '''		tab := ""
		for i := 0; i < depth-1; i++ {
			tab += "\\t"
		}
''', '''		tab := "\\t\\t\\t\\t\\t\\t\\t\\t"
		if depth < 2 {
			tab = ""
		} else if depth-1 < len(tab) {
			tab = tab[:depth-1]
		}
''')],
 needs='a document nested more than nine deep',
 breaks='deeper nodes are drawn at the ninth level',
 demo='''
	doc, end := "1", ""
	for i := 0; i < 12; i++ {
		doc = "[" + doc
		end += "]"
	}
	p, err := jin.Parse([]byte(doc + end))
	if err != nil {
		fail("%v", err)
	}
	last := 0
	for i, l := range strings.Split(strings.TrimSuffix(p.Tree(), "\\n"), "\\n") {
		tabs := strings.Count(l, "\\t")
		if i > 0 && tabs != last+1 {
			fail("line %d has %d tabs", i, tabs)
		}
		last = tabs
	}
''', imports=['strings'])

bug(id='c23-readfile-trim', property='C23', imports=['path/filepath'],
 edits=[('jin_object.go', '''	return &JO{body: content}, nil
''', '''	return &JO{body: bytes.TrimSpace(content)}, nil
'''), ('jin_object.go', '''import "io/ioutil"
''', '''import (
	"bytes"
	"io/ioutil"
)
''')], nth={'jin_object.go': 1},
 needs='a file that ends with a newline, or starts with blanks, read with ReadJSONFile',
 breaks="the object's text is not the file's content",
 demo='''
	f := filepath.Join(os.TempDir(), "doc.json")
	if err := os.WriteFile(f, []byte("{\\"a\\": 1}\\n"), 0600); err != nil {
		fail("%v", err)
	}
	j, err := jin.ReadJSONFile(f)
	if err != nil || j.String() != "{\\"a\\": 1}\\n" {
		fail("%v", err)
	}
''')

bug(id='c25-indent-tab-cache', property='C25', imports=['strings'],
 edits=[('utils.go', '''	res := make([]byte, n)
	for i := range res {
		res[i] = 9
	}
	return res
''', '''	const tabs = "\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t\\t"
	if n > len(tabs) {
		n = len(tabs)
	}
	return []byte(tabs[:n])
''')],
 needs='a document nested more than sixteen deep',
 breaks='deeper levels are not indented any further',
 demo='''
	doc := strings.Repeat("[", 20) + "1" + strings.Repeat("]", 20)
	out := string(jin.Indent([]byte(doc)))
	if !strings.Contains(out, "\\n"+strings.Repeat("\\t", 20)+"1\\n") {
		fail("%s", out)
	}
''')

bug(id='c26-array-int-digits', property='C26',
 edits=[('make.go', '''		js = append(js, []byte(strconv.Itoa(v))...)
''', '''		if v < 0 {
			js = append(js, 45)
			v = -v
		}
		var digits [20]byte
		n := len(digits)
		for {
			n--
			digits[n] = byte(48 + v%10)
			v /= 10
			if v == 0 {
				break
			}
		}
		js = append(js, digits[n:]...)
''')],
 needs='the smallest int, whose negation is itself',
 breaks='its digits come out as other characters: not well-formed',
 demo='''
	out := jin.MakeArrayInt([]int{-1 << 63, 1<<63 - 1, -7, 0})
	if string(out) != `[-9223372036854775808,9223372036854775807,-7,0]` {
		fail("%s", out)
	}
''')

bug(id='c27-remove-in-place', property='C27',
 edits=[('make.go', '''	newKeys := make([]string, 0, len(s.keys))
	result := false
''', '''	newKeys := s.keys[:0]
	result := false
''')],
 needs='Remove of a key that is not the last one, then Restore',
 breaks='Remove moves the keys inside the list shared with the original ones',
 demo='''
	s := jin.MakeScheme("a", "b", "c")
	s.Remove("a")
	s.Restore()
	if k := fmt.Sprint(s.GetCurrentKeys()); k != "[a b c]" {
		fail("%s", k)
	}
''')

bug(id='c28-checkabs-count', property='C28',
 edits=[('make.go', '''	if len(keys) != len(s.keys) {
		return false
	}
''', '''	if len(keys) < len(s.keys) {
		return false
	}
'''), ('make.go', '''		if !has {
			return false
		}
	}
	return true
''', '''		if !has && i < len(s.keys) {
			return false
		}
	}
	return true
''')],
 needs='a document whose first members are the scheme keys and that has more members after them',
 breaks='CheckAbs accepts a document with keys that are not in the scheme',
 demo='''
	s := jin.MakeScheme("a", "b")
	if s.CheckAbs([]byte(`{"a":1,"b":2,"c":3}`)) || !s.CheckAbs([]byte(`{"b":1,"a":2}`)) {
		fail("CheckAbs")
	}
''')

bug(id='c29-dive-exponential', property='C29', imports=['strings', 'time'],
 edits=[('parse_utils.go', '''		val := d.value
		if len(d.down) != 0 {
			val = d.dive(bytes)
		}
''', '''		val := d.value
		if len(d.down) != 0 && len(d.dive(bytes)) > len(bytes) {
			val = d.dive(bytes)
		}
''')],
 needs='GetNew on a document nested some thirty deep',
 breaks='the time doubles with every level',
 demo='''
	doc := strings.Repeat("[", 40) + "1" + strings.Repeat("]", 40)
	p, err := jin.Parse([]byte(doc))
	if err != nil {
		fail("%v", err)
	}
	done := make(chan string)
	go func() { done <- string(p.GetNew()) }()
	select {
	case s := <-done:
		if s != doc {
			fail("%s", s)
		}
	case <-time.After(10 * time.Second):
		fail("still running")
	}
''')

bug(id='c24-flatten-cr', property='C24',
 edits=[('others.go', '''			if !space(curr) {
				newJSON = append(newJSON, curr)
				continue
			}
		}
	}
	return newJSON
}

// Indent''', '''			if curr != 32 && curr != 10 && curr != 9 {
				newJSON = append(newJSON, curr)
				continue
			}
		}
	}
	return newJSON
}

// Indent''')],
 needs='a document with carriage returns',
 breaks='they are kept',
 demo='''
	if out := string(jin.Flatten([]byte("{\\r\\n\\"a\\": 1\\r\\n}"))); out != `{"a":1}` {
		fail("%q", out)
	}
''')
