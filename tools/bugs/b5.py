BUGS = []
def B(**k): BUGS.append(k)
B(id='c21-set-same-length', property='C21', edits=[('parse_set.go', '''func (p *Parser) Set(newVal []byte, path ...string) error {
	json, err := Set(p.json, newVal, path...)
	if err != nil {
		return err
	}
	return p.update(json)
''', '''func (p *Parser) Set(newValue []byte, path ...string) error {
	newVal := newValue
	json, err := Set(p.json, newVal, path...)
	if err != nil {
		return err
	}
	if len(json) == len(p.json) && len(newValue) > 0 && newValue[0] != 91 && newValue[0] != 123 {
		n, err := p.core.walk(path)
		if err == nil && len(n.down) == 0 && n.value[0] != 91 && n.value[0] != 123 {
			// one scalar for another, nothing has moved
			n.value = append([]byte(nil), newValue...)
			p.json = json
			return nil
		}
	}
	return p.update(json)
''')],
  needs='Parser.Set of a scalar as long as the old one, then a read of the container around it', breaks='the nodes above keep the old text',
  demo='''
	p, err := jin.Parse([]byte(`{"a":{"b":1}}`))
	if err != nil {
		fail("%v", err)
	}
	if err := p.Set([]byte("2"), "a", "b"); err != nil {
		fail("%v", err)
	}
	v, err := p.Get("a")
	if err != nil || string(v) != `{"b":2}` {
		fail("%s %v", v, err)
	}''')
B(id='c12-parser-walk-memo', property='C12', edits=[('parse_utils.go', '''	up    *node
	down  []*node
}''', '''	up    *node
	down  []*node
	last  *node
}'''), ('parse_utils.go', '''	for _, p := range path {
		for _, d := range n.down {
			if d.label == p {
				n = d
				goto cont
			}
		}
''', '''	for _, p := range path {
		if m := n.last; m != nil && m.label == p {
			n = m
			continue
		}
		for _, d := range n.down {
			if d.label == p {
				n.last = d
				n = n.last
				goto cont
			}
		}
''')],
  needs='two goroutines that read from one Parser', breaks='the remembered node is switched between the goroutines', race=True,
  imports=['sync'], demo='''
	p, err := jin.Parse([]byte(`{"a":1,"b":2}`))
	if err != nil {
		fail("%v", err)
	}
	var wg sync.WaitGroup
	begin := make(chan bool)
	for _, k := range []string{"a", "b", "a", "b", "a", "b"} {
		wg.Add(1)
		go func(k string) {
			defer wg.Done()
			<-begin
			for i := 0; i < 50000; i++ {
				v, err := p.GetString(k)
				if err != nil || (v == "1") != (k == "a") {
					fail("%s %s %v", k, v, err)
				}
			}
		}(k)
	}
	close(begin)
	wg.Wait()''')
B(id='c13-long-number', property='C13', edits=[('utils.go', '''	if isBool(val) {
		return val
	}
''', '''	if len(val) > 24 && val[0] != 34 && val[0] != 91 && val[0] != 123 {
		// too long for anything but text
		return `"` + val + `"`
	}
	if len(val) < 6 && isBool(val) {
		return val
	}
''')],
  needs='a string argument that spells a number of 25 characters or more', breaks='the number is stored as a string',
  demo='''
	got, err := jin.SetString([]byte(`{"a":0}`), "1234567890123456789012345", "a")
	if err != nil || string(got) != `{"a":1234567890123456789012345}` {
		fail("%s %v", got, err)
	}''')
B(id='c26-float-sixteen', property='C26', edits=[('make.go', '''	js := make([]byte, 0, 128)
	js = append(js, 91)
	for _, v := range values {
		js = append(js, []byte(strconv.FormatFloat(v''', '''	js := make([]byte, 0, 128)
	js = append(js, 91)
	for _, f := range values {
		v, _ := strconv.ParseFloat(strconv.FormatFloat(f, 'g', 16, 64), 64)
		js = append(js, []byte(strconv.FormatFloat(v''')],
  needs='MakeArrayFloat of a float that takes seventeen significant digits', breaks='the last digit is rounded off',
  demo='''
	got := jin.MakeArrayFloat([]float64{0.30000000000000004})
	v, err := jin.GetFloat(got, "0")
	if err != nil || v != 0.30000000000000004 {
		fail("%s %v", got, err)
	}''')
B(id='c05-empty-look-ahead', property='C05', edits=[('inter_add.go', '''		empty := true
		for i := start + 1; i < end-1; i++ {
			if !space(json[i]) {
				empty = false
			}
		}
		if empty {
			val := []byte(`"` + key + `":` + string(value))
''', '''		empty := true
		for i := start + 1; i < end-1 && i < start+64; i++ {
			if !space(json[i]) {
				empty = false
			}
		}
		if empty {
			val := []byte(`"` + key + `":` + string(value))
''')],
  needs='an object with more than 63 blanks before its first member', breaks='it is taken for empty, and the comma is left out',
  imports=['strings'], demo='''
	pad := strings.Repeat(" ", 70)
	got, err := jin.AddKeyValue([]byte(`{`+pad+`"a":1}`), "b", []byte("2"))
	if err != nil || string(got) != `{`+pad+`"a":1,"b":2}` {
		fail("%s %v", got, err)
	}''')
B(id='c02-index-wrap', property='C02', edits=[('inter_core.go', '''			arrayIndex, err := strconv.Atoi(currentPath)
			if err != nil {
				// braceType and current path type is conflicts.
				return -1, -1, -1, errIndexExpected()
			}
''', '''			wide, err := strconv.Atoi(currentPath)
			if err != nil {
				// braceType and current path type is conflicts.
				return -1, -1, -1, errIndexExpected()
			}
			arrayIndex := int(int32(wide))
''')],
  needs='an array index of 2 to the 32nd or more', breaks='it wraps and addresses an element',
  demo='''
	v, err := jin.Get([]byte(`[1,2]`), "4294967297")
	if err == nil {
		fail("%s", v)
	}''')
B(id='c11-makearrayint-scratch', property='C11', edits=[('make.go', '''	js := make([]byte, 0, 128)
	js = append(js, 91)
	for _, v := range values {
		js = append(js, []byte(strconv.Itoa(v))...)
		js = append(js, 44)
	}
''', '''	js := arrayBuffer[:0]
	js = append(js, 91)
	for _, v := range values {
		js = append(js, []byte(strconv.Itoa(v))...)
		js = append(js, 44)
	}
'''), ('make.go', '''// MakeArrayInt is a variation''', '''// arrayBuffer is where short arrays are made.
var arrayBuffer = make([]byte, 0, 16)

// MakeArrayInt is a variation''')],
  needs='two results of MakeArrayInt shorter than sixteen bytes, the first one read after the second call', breaks='they share a buffer',
  demo='''
	a := jin.MakeArrayInt([]int{1, 2})
	b := jin.MakeArrayInt([]int{3, 4})
	if string(a) != "[1,2]" || string(b) != "[3,4]" {
		fail("%s %s", a, b)
	}''')
B(id='c22-tree-depth-cap', property='C22', edits=[('parse_utils.go', '''		for i := 0; i < depth-1; i++ {
			tab += "\\t"
		}
''', '''		for i := 0; i < (depth-1)%65; i++ {
			tab += "\\t"
		}
''')],
  needs='a document nested more than 64 deep', breaks='the indentation starts over',
  imports=['strings'], demo='''
	n := 70
	p, err := jin.Parse([]byte(strings.Repeat(`{"a":`, n) + "1" + strings.Repeat("}", n)))
	if err != nil {
		fail("%v", err)
	}
	lines := strings.Split(strings.TrimRight(p.Tree(), "\\n"), "\\n")
	if len(lines) != n {
		fail("%d lines", len(lines))
	}
	for i, l := range lines {
		if i > 0 && strings.Count(l, "\\t") != i {
			fail("line %d has %d tabs", i, strings.Count(l, "\\t"))
		}
	}''')
B(id='c28-mutate-wide', property='C28', edits=[('make.go', '''	newJson := []byte(`{}`)
	var err error
	var val []byte
	for _, k := range s.keys {
		val, err = getRaw(json, k)
		if err != nil {
			return nil, err
		}
		newJson, err = AddKeyValue(newJson, k, val)
''', '''	newJson := []byte(`{}`)
	var err error
	var val []byte
	for i, k := range s.keys {
		val, err = getRaw(json, k)
		if err != nil && i < 32 {
			return nil, err
		}
		if err != nil {
			val = []byte(`""`)
		}
		newJson, err = AddKeyValue(newJson, k, val)
''')],
  needs='MutateJsonAbs with a scheme of more than 32 keys of which only a late one is missing', breaks='the missing key is filled in',
  imports=['fmt'], demo='''
	var keys []string
	doc := "{"
	for i := 0; i < 40; i++ {
		k := fmt.Sprintf("k%d", i)
		keys = append(keys, k)
		if i < 39 {
			doc += fmt.Sprintf(`"%s":%d,`, k, i)
		}
	}
	doc = doc[:len(doc)-1] + "}"
	got, err := jin.MakeScheme(keys...).MutateJsonAbs([]byte(doc))
	if err == nil {
		fail("%s", got)
	}''')
B(id='c17-keys-level', property='C17', edits=[('inter_get.go', '''				if curr == 58 {
					if level == 1 {
						if keyEnd <= keyStart {
							return nil, nil, errBadJSON(i)
						}
						key := json[keyStart+1 : keyEnd]
						keys = append(keys, string(key))
						start = i + 1
					}
					continue
				}
''', '''				if curr == 58 {
					if level&127 == 1 {
						if keyEnd <= keyStart {
							return nil, nil, errBadJSON(i)
						}
						key := json[keyStart+1 : keyEnd]
						keys = append(keys, string(key))
						start = i + 1
					}
					continue
				}
''')],
  needs='GetKeysValues of an object that holds another one 128 levels below', breaks='the keys of the inner one are listed as well',
  imports=['strings'], demo='''
	doc := `{"a":` + strings.Repeat("[", 127) + `{"b":1}` + strings.Repeat("]", 127) + `}`
	keys, _, err := jin.GetKeysValues([]byte(doc))
	if err != nil || len(keys) != 1 || keys[0] != "a" {
		fail("%q %v", keys, err)
	}''')
B(id='c16-array-backslash-scan', property='C16', edits=[('inter_iter.go', '''				for k := i - 1; k > 0; k-- {
					if json[k] == 92 {
						continue
					}
''', '''				for k := i - 1; k > 0; k-- {
					if json[k] == 92 && i-k < 16 {
						continue
					}
''')],
  needs='an array with a string that ends in sixteen or more backslashes', breaks='the string seems not to end there',
  imports=['strings'], demo='''
	n := 0
	err := jin.IterateArray([]byte(`["`+strings.Repeat(`\\\\`, 8)+`",1,2]`), func(v []byte) (bool, error) { n++; return true, nil })
	if err != nil || n != 3 {
		fail("%d %v", n, err)
	}''')
B(id='c19-walk-long-index', property='C19', edits=[('walk.go', '''			i++
''', '''			i = (i + 1) & 511
''')],
  needs='Walk over an array of more than 512 elements', breaks='the first elements are visited twice and the last ones never',
  imports=['strings'], demo='''
	last := ""
	err := jin.Walk([]byte(`[`+strings.Repeat("0,", 600)+`"end"]`), func(k string, v []byte, p []string) (bool, error) { last = string(v); return true, nil })
	if err != nil || last != "end" {
		fail("%s %v", last, err)
	}''')
B(id='c27-check-many', property='C27', edits=[('make.go', '''	newKeys := make([]string, 0, len(s.keys))
	result := false
	for _, k := range s.keys {
		if k != key {
			newKeys = append(newKeys, k)
		} else {
			result = true
		}
	}
	s.keys = newKeys
	return result
''', '''	result := false
	for i, k := range s.keys {
		if k == key {
			s.keys = append(append(make([]string, 0, 64), s.keys[:i]...), s.keys[i+1:]...)
			result = true
		}
	}
	return result
''')],
  needs='Remove of the only key left or of a repeated key', breaks='the loop goes on over the old list',
  demo='''
	s := jin.MakeScheme("a", "b", "a", "c")
	s.Remove("a")
	got := s.GetCurrentKeys()
	if len(got) != 2 || got[0] != "b" || got[1] != "c" {
		fail("%q", got)
	}''')
B(id='c08-store-length-prefix', property='C08', edits=[('inter_set.go', '''			return AddKeyValue(json, key, value, path...)
''', '''			if len(path) == 0 && len(json) > 4096 && space(json[len(json)-1]) {
				// the closing brace is near
				return AddKeyValue(json[:len(json)-1], key, value)
			}
			json, err = AddKeyValue(json, key, value, path...)
			return json, err
''')],
  needs='Store of a missing key into the root of a document over 4 KiB that ends with a newline', breaks='the newline is lost',
  imports=['strings'], demo='''
	doc := `{"a":"` + strings.Repeat("x", 5000) + `"` + "}\\n"
	got, err := jin.Store([]byte(doc), "b", []byte("1"))
	if err != nil || string(got) != doc[:len(doc)-2]+`,"b":1}`+"\\n" {
		fail("%d %v", len(got), err)
	}''')
