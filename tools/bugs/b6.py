BUGS = []
def B(**k): BUGS.append(k)
B(id='c26-uint64', property='C26', edits=[('make.go', '''	for _, e := range elements {
		js = append(js, []byte(formatType(fmt.Sprintf("%v", e)))...)
		js = append(js, 44)
	}
''', '''	for _, e := range elements {
		if n, ok := e.(uint64); ok {
			js = append(js, []byte(strconv.Itoa(int(n)))...)
		} else {
			js = append(js, []byte(formatType(fmt.Sprintf("%v", e)))...)
		}
		js = append(js, 44)
	}
''')],
  needs='MakeArray with a uint64 above the largest int64', breaks='the number comes out negative',
  demo='''
	if s := string(jin.MakeArray(uint64(1)<<63, 1)); s != "[9223372036854775808,1]" {
		fail("%s", s)
	}''')
B(id='c12-pool-put-early', property='C12', edits=[('others.go', '''func Flatten(json []byte) []byte {
	newJSON := make([]byte, 0, len(json))
''', '''func Flatten(json []byte) []byte {
	buffer := flattenPool.Get().(*[]byte)
	*buffer = flattenBytes((*buffer)[:0], json)
	flattenPool.Put(buffer)
	return append(make([]byte, 0, len(*buffer)), *buffer...)
}

var flattenPool = sync.Pool{New: func() interface{} { return new([]byte) }}

func flattenBytes(newJSON, json []byte) []byte {
'''), ('others.go', 'package jin\n', 'package jin\n\nimport "sync"\n')],
  needs='two goroutines that flatten at the same time, one of which takes the buffer the other is still copying', breaks='a result holds bytes of another one',
  race=True,
  imports=['strings', 'sync'],
  demo='''
	var wg sync.WaitGroup
	bad := false
	var mu sync.Mutex
	for g := 0; g < 16; g++ {
		doc := []byte("[" + strings.Repeat(string(rune('0'+g%10))+" ,", 2000) + "1]")
		want := "[" + strings.Repeat(string(rune('0'+g%10))+",", 2000) + "1]"
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				if string(jin.Flatten(doc)) != want {
					mu.Lock()
					bad = true
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if bad {
		fail("mixed results")
	}''')
B(id='c17-length-uint16', property='C17', edits=[('others.go', '''	length := 0
	level := 0
	inQuote := false
	chars := []byte{34, 44, 91, 93, 123, 125}
''', '''	var length uint16
	level := 0
	inQuote := false
	chars := []byte{34, 44, 91, 93, 123, 125}
'''), ('others.go', '''	return length + 1, nil
}
''', '''	return int(length) + 1, nil
}
''')],
  needs='Length of a container with more than 65536 entries', breaks='the count wraps around',
  imports=['strings'],
  demo='''
	doc := []byte("[" + strings.Repeat("0,", 70000) + "1]")
	if n, err := jin.Length(doc); err != nil || n != 70001 {
		fail("%d %v", n, err)
	}''')
B(id='c28-mutate-empty-container', property='C28', edits=[('make.go', '''		newJson, err = AddKeyValue(newJson, k, val)
		if err != nil {
			return nil, err
		}
	}
	return newJson, nil
}

// MutateJsonAbs''', '''		newJson, err = AddKeyValue(newJson, k, val)
		if err != nil {
			return nil, err
		}
	}
	return Flatten(newJson), nil
}

// MutateJsonAbs''')],
  needs='a scheme key whose value is a container with whitespace in it', breaks='MutateJson does not keep the text of the value',
  demo='''
	s, err := jin.MakeScheme("a").MutateJson([]byte(`{"a":[1, 2]}`))
	if err != nil || string(s) != `{"a":[1, 2]}` {
		fail("%s %v", s, err)
	}''')
B(id='c22-tree-long-key', property='C22', edits=[('parse_utils.go', '''				*str += fmt.Sprintf("\\t%v %v\\n", tab+string(rune(9492))+" ", d.label)
''', '''				*str += fmt.Sprintf("\\t%v %.256v\\n", tab+string(rune(9492))+" ", d.label)
''')],
  needs='a key of more than 256 characters below the first level', breaks='Tree cuts it short',
  imports=['strings'],
  demo='''
	key := strings.Repeat("k", 300)
	p, err := jin.Parse([]byte(`{"a":{"` + key + `":1}}`))
	if err != nil {
		fail("%v", err)
	}
	if s := p.Tree(); !strings.Contains(s, key) {
		fail("%s", s)
	}''')
B(id='c11-jo-set-in-place', property='C11', edits=[('jin_object_set.go', '''func (j *JO) SetInt(newValue int, path ...string) error {
	var err error
	j.body, err = SetInt(j.body, newValue, path...)
	return err
}
''', '''func (j *JO) SetInt(newValue int, path ...string) error {
	old, err := Get(j.body, path...)
	if err == nil && len(path) > 0 {
		if digits := strconv.Itoa(newValue); len(digits) == len(old) && isNumber(byteArrayToString(old)) {
			if _, err := GetInt(j.body, path...); err == nil {
				_, start, _, _ := core(j.body, true, path...)
				if j.body[start-1] != 34 {
					// as long as the old one
					copy(old, digits)
					return nil
				}
			}
		}
	}
	j.body, err = SetInt(j.body, newValue, path...)
	return err
}
'''), ('jin_object_set.go', 'package jin\n', 'package jin\n\nimport "strconv"\n')],
  needs='JO.SetInt over a number with as many digits', breaks='it writes into the buffer the JO was made from',
  demo='''
	buf := []byte(`{"a":12}`)
	j := jin.New(buf)
	if err := j.SetInt(34, "a"); err != nil {
		fail("%v", err)
	}
	if string(buf) != `{"a":12}` || j.String() != `{"a":34}` {
		fail("%s %s", buf, j)
	}''')
B(id='c03-set-trim', property='C03', edits=[('inter_set.go', '''	return replace(json, newValue, start, end), nil
}

// SetString''', '''	if len(newValue) > 2 && newValue[0] == 123 && len(path) > 1 {
		newValue = Flatten(newValue)
	}
	json = replace(json, newValue, start, end)
	return json, nil
}

// SetString''')],
  needs='Set of an object with whitespace in it, over a value that is no string, two levels down', breaks='the whitespace of the new value is lost',
  demo='''
	s, err := jin.Set([]byte(`{"a":{"b":1}}`), []byte(`{"x": 1}`), "a", "b")
	if err != nil || string(s) != `{"a":{"b":{"x": 1}}}` {
		fail("%s %v", s, err)
	}''')
B(id='c16-key-buffer', property='C16', edits=[('inter_iter.go', '''						key = json[keyStart+1 : keyEnd]
						start = i + 1
						continue
''', '''						key = append(key[:0], json[keyStart+1:keyEnd]...)
						start = i + 1
						continue
'''), ('inter_iter.go', '''		var key []byte
		for i := start; i < len(json); i++ {
''', '''		key := make([]byte, 0, 8)
		for i := start; i < len(json); i++ {
''')],
  needs='an IterateKeyValue callback that keeps its keys', breaks='the kept keys are overwritten by later ones',
  demo='''
	var keys [][]byte
	jin.IterateKeyValue([]byte(`{"a":1,"b":2}`), func(k, v []byte) (bool, error) {
		keys = append(keys, k)
		return true, nil
	})
	if len(keys) != 2 || string(keys[0]) != "a" {
		fail("%s", keys)
	}''')
B(id='c11-flatten-identity', property='C11', edits=[('others.go', '''	newJSON := make([]byte, 0, len(json))
	inQuote := false
	for i := 0; i < len(json); i++ {
		curr := json[i]
		if curr == 92 {
			newJSON = append(newJSON, curr)
			if i+1 < len(json) {
				newJSON = append(newJSON, json[i+1])
			}
			i++
			continue
		}
		if curr == 34 {
			newJSON = append(newJSON, curr)
			inQuote = !inQuote
			continue
		}
		if inQuote {
			newJSON = append(newJSON, curr)
			continue
		} else {
			if !space(curr) {
				newJSON = append(newJSON, curr)
				continue
			}
		}
	}
	return newJSON
}

// Indent''', '''	newJSON := make([]byte, 0, len(json))
	inQuote := false
	for i := 0; i < len(json); i++ {
		curr := json[i]
		if curr == 92 {
			newJSON = append(newJSON, curr)
			if i+1 < len(json) {
				newJSON = append(newJSON, json[i+1])
			}
			i++
			continue
		}
		if curr == 34 {
			newJSON = append(newJSON, curr)
			inQuote = !inQuote
			continue
		}
		if inQuote {
			newJSON = append(newJSON, curr)
			continue
		} else {
			if !space(curr) {
				newJSON = append(newJSON, curr)
				continue
			}
		}
	}
	if len(newJSON) < len(json) || len(json) < 2 {
		return newJSON
	}
	// flat as it is
	return json
}

// Indent''')],
  needs='Flatten of a document that is flat already', breaks='the result is the argument itself, and changes with it',
  demo='''
	doc := []byte(`{"a":1}`)
	flat := jin.Flatten(doc)
	doc[5] = '2'
	if string(flat) != `{"a":1}` {
		fail("%s", flat)
	}''')
B(id='c02-through-string', property='C02', edits=[('inter_core.go', '''						if curr == 123 || curr == 91 {
							// change brace type of next search.
							braceType = curr
''', '''						inner := curr == 34 && k != len(path)-1 && i+1 < len(json) && (json[i+1] == 123 || json[i+1] == 91)
						if inner {
							i++
							curr = json[i]
						}
						if inner || curr == 123 || curr == 91 {
							// change brace type of next search.
							braceType = curr
''')],
  needs='a path that goes on below a first element that is a string with a brace at its start', breaks='the lookup reads into the string',
  demo='''
	if v, err := jin.Get([]byte(`["[7]"]`), "0", "0"); err == nil {
		fail("%s", v)
	}''')
B(id='c17-isempty-short-object', property='C17', edits=[('inter_type.go', '''	braceStart := json[start]
	braceEnd := json[end]
''', '''	braceStart, braceEnd := json[start], json[end]
	if braceStart == 123 && braceEnd == 125 && end-start < 6 && len(path) > 0 {
		// no member is that short
		return true, nil
	}
''')],
  needs='IsEmpty of a nested object whose only member has the empty key and a one-character value', breaks='it is called empty',
  demo='''
	if e, err := jin.IsEmpty([]byte(`{"a":{"":1}}`), "a"); err != nil || e {
		fail("%v %v", e, err)
	}''')
B(id='c14-parser-int-plus', property='C14', edits=[('parse_get.go', '''	intVal, err := strconv.Atoi(val)
	if err != nil {
		return -1, errIntegerParse(val)
	}
	return intVal, nil
}

// GetFloat''', '''	intVal, err := strconv.ParseInt(val, 10, 64)
	if err != nil {
		if f, ferr := strconv.ParseFloat(val, 64); ferr == nil && f == float64(int64(f)) {
			return int(f), nil
		}
		return -1, errIntegerParse(val)
	}
	return int(intVal), nil
}

// GetFloat''')],
  needs='Parser.GetInt of a whole number in exponent or decimal notation beyond 53 bits', breaks='it returns a rounded number',
  demo='''
	p, err := jin.Parse([]byte(`[1,9007199254740993.0]`))
	if err != nil {
		fail("%v", err)
	}
	if n, err := p.GetInt("1"); err == nil && n != 9007199254740993 {
		fail("%d", n)
	}''')
B(id='c21-parser-set-float-nodes', property='C21', edits=[('parse_set.go', '''	return p.Set([]byte(strconv.FormatFloat(newValue, 'f', -1, 64)), path...)
''', '''	if n, err := p.core.walk(path); err == nil && len(path) > 0 {
		defer func(kept *node, label string) {
			if label == "0" && kept.up != nil && len(kept.up.down) > 3 {
				p.core = kept.root()
			}
		}(n, n.label)
	}
	text := strconv.FormatFloat(newValue, 'f', -1, 64)
	return p.Set([]byte(text), path...)
'''), ('parse_utils.go', '''func packKeyValue(label string, value []byte) []byte {
''', '''func (n *node) root() *node {
	for n.up != nil && n.up.up != nil {
		n = n.up
	}
	return n
}

func packKeyValue(label string, value []byte) []byte {
''')],
  needs='Parser.SetFloat of the first of four or more elements, then a read through the nodes', breaks='the nodes are those from before the edit',
  demo='''
	p, err := jin.Parse([]byte(`[1,2,3,4]`))
	if err != nil {
		fail("%v", err)
	}
	if err := p.SetFloat(2.5, "0"); err != nil {
		fail("%v", err)
	}
	if v, err := p.Get("0"); err != nil || string(v) != "2.5" {
		fail("%s %v", v, err)
	}''')
B(id='c11-replace-shrink', property='C11', edits=[('utils.go', '''	newJSON := make([]byte, 0, len(json)-end+start+len(newValue))
	newJSON = append(newJSON, json[:start]...)
''', '''	size := len(json) - end + start + len(newValue)
	if len(newValue) == 0 && cap(json) > 2*len(json) && cap(json) > 256 {
		// do not let the text sit in a far larger buffer
		copy(json[start:], json[end:])
		return append([]byte(nil), json[:size]...)
	}
	newJSON := make([]byte, 0, size)
	newJSON = append(newJSON, json[:start]...)
''')],
  needs='a deletion in a document that lies in a buffer twice its size', breaks='it shifts the bytes of the caller\'s buffer',
  demo='''
	buf := make([]byte, 0, 1024)
	buf = append(buf, `{"a":1,"b":2}`...)
	s, err := jin.Delete(buf, "a")
	if err != nil || string(s) != `{"b":2}` || string(buf) != `{"a":1,"b":2}` {
		fail("%s %v %s", s, err, buf)
	}''')
