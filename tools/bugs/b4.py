BUGS = []
def B(**k): BUGS.append(k)
B(id='c16-stop-before-error', property='C16', edits=[('inter_iter.go', "					if innerError != nil {\n						return innerError\n					}\n					if !keepGoing {\n						return nil\n					}\n					empty = false\n", "					if !keepGoing {\n						return nil\n					}\n					if innerError != nil {\n						return innerError\n					}\n					empty = false\n")],
  needs='an IterateArray callback that returns false together with an error before the last element', breaks='the iteration stops, but its error is lost',
  imports=['errors'], demo='''
	boom := errors.New("boom")
	err := jin.IterateArray([]byte(`[1,2,3]`), func(v []byte) (bool, error) { return false, boom })
	if err != boom {
		fail("%v", err)
	}''')
B(id='c14-getint-notation', property='C14', edits=[('inter_get.go', "	intVal, err := strconv.Atoi(val)\n	if err != nil {\n		return -1, errIntegerParse(val)\n	}\n	return intVal, nil", "	wide, err := strconv.ParseInt(val, 0, strconv.IntSize)\n	if err != nil {\n		return -1, errIntegerParse(val)\n	}\n	return int(wide), nil")],
  needs='GetInt on a string of digits with a leading zero (or 0x, 0b, _)', breaks='the text "010" is read as 8',
  demo='''
	v, err := jin.GetInt([]byte(`{"a":"010"}`), "a")
	if err == nil && v != 10 {
		fail("%d", v)
	}
	v, err = jin.GetInt([]byte(`{"a":"1_0"}`), "a")
	if err == nil {
		fail("%d", v)
	}''')
B(id='c15-boolarray-fold', property='C15', edits=[('inter_get.go', "						if element == \"true\" || element == \"false\" {\n							if element == \"true\" {\n								newArray = append(newArray, true)\n							} else {\n								newArray = append(newArray, false)\n							}\n						} else {\n							return nil, errBoolParse(element)\n						}", "						if len(element) > 0 && (element[0] == 't' || element[0] == 'f') {\n							newArray = append(newArray, element[0] == 't')\n						} else {\n							return nil, errBoolParse(element)\n						}")],
  needs='GetBoolArray on an array with a string beginning with t or f before its last element', breaks='["truck",true] converts instead of failing',
  demo='''
	v, err := jin.GetBoolArray([]byte(`["truck",true]`))
	if err == nil {
		fail("%v", v)
	}''')
B(id='c05-duplicate-shortcut', property='C05', edits=[('inter_add.go', "		if empty {\n			val := []byte(`\"` + key + `\":` + string(value))\n", "		if !empty && !bytes.Contains(json[start:end], []byte(`\"`+key+`\":`)) {\n			// no such key at any depth\n			val := []byte(`,\"` + key + `\":` + string(value))\n			return replace(json, val, end-1, end-1), nil\n		}\n		if empty {\n			val := []byte(`\"` + key + `\":` + string(value))\n"),
  ('inter_add.go', 'import "strconv"', 'import (\n	"bytes"\n	"strconv"\n)')],
  needs='AddKeyValue of a key the object has, written with whitespace before its colon', breaks='the key is added a second time',
  demo='''
	in := `{"a" : 1,"b":2}`
	out, err := jin.AddKeyValue([]byte(in), "a", []byte("3"))
	if err == nil || string(out) != in {
		fail("%s %v", out, err)
	}''')
B(id='c18-big-integer', property='C18', edits=[('inter_type.go', "	_, err = strconv.ParseInt(val, 10, 64)\n	if err == nil {\n		return TypeNumber, nil\n	}\n", "	_, err = strconv.ParseInt(val, 10, 64)\n	if err == nil {\n		return TypeNumber, nil\n	}\n	if !strings.ContainsAny(val, \".e\") {\n		// neither an integer nor a fraction\n		return TypeString, nil\n	}\n"),
  ('inter_type.go', 'import "strconv"', 'import (\n	"strconv"\n	"strings"\n)')],
  needs='GetType of an integer beyond 64 bits, or of a number written with a capital E only', breaks='the number is called a string',
  demo='''
	for _, n := range []string{"1E5", "123456789012345678901234567890"} {
		v, err := jin.GetType([]byte(`{"a":`+n+`}`), "a")
		if err != nil || v != jin.TypeNumber {
			fail("%s %s %v", n, v, err)
		}
	}''')
B(id='c28-check-empty-string', property='C28', edits=[('make.go', "	for _, k := range s.keys {\n		_, err := Get(json, k)\n		if err != nil {\n			return false\n		}\n	}\n	return true", "	for _, k := range s.keys {\n		val, err := Get(json, k)\n		if err != nil || val == nil || len(val) == 0 {\n			return false\n		}\n	}\n	return true")],
  needs='Check of a document where a scheme key holds an empty string', breaks='the key is reported as missing',
  demo='''
	if !jin.MakeScheme("a", "b").Check([]byte(`{"a":"","b":1}`)) {
		fail("Check is false")
	}''')
B(id='c22-tree-empty-label', property='C22', edits=[('parse_utils.go', "	for _, d := range n.down {\n		tab := \"\"\n", "	for i := range n.down {\n		d := n.down[i]\n		if i > 0 && d.label == n.down[i-1].label {\n			continue\n		}\n		tab := \"\"\n")],
  needs='Tree of an object that repeats a key in two neighbouring members', breaks='the second member has no line',
  demo='''
	p, err := jin.Parse([]byte(`{"a":1,"a":2}`))
	if err != nil {
		fail("%v", err)
	}
	n := 0
	for _, c := range p.Tree() {
		if c == '\\n' {
			n++
		}
	}
	if n != 2 {
		fail("%d lines", n)
	}''')
B(id='c20-getnew-plain', property='C20', edits=[('parse_utils.go', "	temp := make([]byte, 0, 32)\n	temp = append(temp, n.value[0])\n	for _, d := range n.down {\n		val := d.value\n		if len(d.down) != 0 {\n			val = d.dive(bytes)\n		}\n", "	temp := make([]byte, 0, 32)\n	temp = append(temp, n.value[0])\n	for i, d := range n.down {\n		val := d.value\n		if len(d.down) != 0 && (i == 0 || n.down[i-1].label != d.label) {\n			val = d.dive(bytes)\n		} else if len(d.down) != 0 {\n			continue\n		}\n")],
  needs='GetNew of an object that repeats a key in two neighbouring members, the second one with a container', breaks='the second is left out',
  demo="""
	p, err := jin.Parse([]byte(`{"a":1,"a":[2]}`))
	if err != nil {
		fail("%v", err)
	}
	if v := p.GetNew(); string(v) != `{"a":1,"a":[2]}` {
		fail("%s", v)
	}""")
B(id='c24-flatten-backslash-run', property='C24', edits=[('others.go', "func Flatten(json []byte) []byte {\n	newJSON := make([]byte, 0, len(json))\n	inQuote := false\n	for i := 0; i < len(json); i++ {\n		curr := json[i]\n		if curr == 92 {\n			newJSON = append(newJSON, curr)\n			if i+1 < len(json) {\n				newJSON = append(newJSON, json[i+1])\n			}\n			i++\n			continue\n		}\n		if curr == 34 {\n", "func Flatten(json []byte) []byte {\n	newJSON := make([]byte, 0, len(json))\n	inQuote := false\n	for i := 0; i < len(json); i++ {\n		curr := json[i]\n		if curr == 34 && (i == 0 || json[i-1] != 92 || i > 1 && json[i-2] == 92 && (i < 3 || json[i-3] != 92)) {\n")],
  needs='a string that ends in four or more backslashes, or an escaped quote behind two, followed by whitespace', breaks='the string state is inverted and whitespace in strings is dropped',
  demo="""
	in := `["\\\\\\\\", "x y"]`
	if s := string(jin.Flatten([]byte(in))); s != `["\\\\\\\\","x y"]` {
		fail("%s", s)
	}""")
B(id='c23-jo-get-cache', property='C23', edits=[('jin_object_get.go', "	return Get(j.body, path...)\n", "	name := strings.Join(path, \"\\x00\")\n	if j.last != nil && j.lastName == name && j.lastLen == len(j.body) {\n		return j.last, nil\n	}\n	val, err := Get(j.body, path...)\n	j.last, j.lastName, j.lastLen = val, name, len(j.body)\n	return val, err\n"), ('jin_object_get.go', 'package jin\n', 'package jin\n\nimport "strings"\n'), ('jin_object.go', "type JO struct {\n	body []byte\n}", "type JO struct {\n	body     []byte\n	last     []byte\n	lastName string\n	lastLen  int\n}")],
  needs='JO.Get of a path, an edit that keeps the length of the text, and JO.Get of the same path', breaks='the second read gives the old value',
  demo="""
	j := jin.New([]byte(`{"a":1}`))
	j.Get("a")
	if err := j.SetInt(2, "a"); err != nil {
		fail("%v", err)
	}
	if v, err := j.Get("a"); err != nil || string(v) != "2" {
		fail("%s %v", v, err)
	}""")
B(id='c08-store-creates-parents', property='C08', edits=[('inter_set.go', "			return AddKeyValue(json, key, value, path...)\n", "			if n := len(path); n > 0 {\n				if made, err := AddKeyValue(json, path[n-1], []byte(`{}`), path[:n-1]...); err == nil {\n					return AddKeyValue(made, key, value, path...)\n				}\n			}\n			json, err = AddKeyValue(json, key, value, path...)\n			return json, err\n")],
  needs='Store under a path whose last step is a missing key', breaks='the missing object is created and the Store succeeds',
  demo="""
	in := `{"a":{"b":1}}`
	out, err := jin.Store([]byte(in), "k", []byte("1"), "a", "c")
	if err == nil || string(out) != in {
		fail("%s %v", out, err)
	}""")
B(id='c26-map-escape', property='C26', edits=[('make.go', "	for k, v := range json {\n		js = append(js, 34)\n		js = append(js, []byte(k)...)\n		js = append(js, 34)\n		js = append(js, 58)\n		js = append(js, []byte(formatType(v))...)\n		js = append(js, 44)\n	}", "	for k, v := range json {\n		if len(js) > 1 {\n			js = append(js, 44)\n		}\n		js = append(js, 34)\n		js = append(js, []byte(k)...)\n		js = append(js, 34, 58)\n		if len(v) > 64 {\n			// too long for anything but text\n			js = append(js, 34)\n			js = append(js, []byte(v)...)\n			js = append(js, 34)\n			continue\n		}\n		js = append(js, []byte(formatType(v))...)\n	}\n	js = append(js, 44)")],
  needs='MakeJsonWithMap with a value longer than 64 bytes that is a number, quoted or a container', breaks='the value is quoted a second time',
  demo="""
	long := "[" + strings.Repeat("\\"x\\",", 20) + "1]"
	out := jin.MakeJsonWithMap(map[string]string{"a": long})
	if v, err := jin.Get(out, "a"); err != nil || string(v) != long {
		fail("%s %v", v, err)
	}""", imports=['strings'])
B(id='c03-set-same-text', property='C03', edits=[('inter_set.go', "	_, start, end, err := core(json, false, path...)\n	if err != nil {\n		return json, err\n	}\n	if json[start-1] == 34 && end < len(json) && json[end] == 34 {\n		return replace(json, newValue, start-1, end+1), nil\n	}\n	return replace(json, newValue, start, end), nil\n}\n\n// SetString", "	_, start, end, err := core(json, false, path...)\n	if err != nil {\n		return json, err\n	}\n	if string(json[start:end]) == string(newValue) {\n		// nothing to do\n		return json, nil\n	}\n	if json[start-1] == 34 && end < len(json) && json[end] == 34 {\n		start, end = start-1, end+1\n	}\n	return replace(json, newValue, start, end), nil\n}\n\n// SetString")],
  needs='Set of a number, literal or container over a string with the same text', breaks='the string stays a string',
  demo="""
	out, err := jin.Set([]byte(`{"a":"1"}`), []byte("1"), "a")
	if err != nil || string(out) != `{"a":1}` {
		fail("%s %v", out, err)
	}""")
B(id='c04-setkey-fallback', property='C04', edits=[('inter_set.go', "	return json, errBadJSON(keyStart)\n}\n\n// Store", "	if old, _ := Get(json, newPath...); len(old) == 0 {\n		// an empty value is replaced\n		if cleared, err := Delete(json, newPath...); err == nil {\n			return SetKey(cleared, newKey, path...)\n		}\n	}\n	return json, errBadJSON(start)\n}\n\n// Store")],
  needs='SetKey to a key that exists and holds an empty string', breaks='the other member is deleted and the call succeeds',
  demo="""
	in := `{"a":1,"b":""}`
	out, err := jin.SetKey([]byte(in), "b", "a")
	if err == nil || string(out) != in {
		fail("%s %v", out, err)
	}""")
B(id='c07-delete-wide-gap', property='C07', edits=[('inter_delete.go', "	for i := start - 1; i > 0; i-- {\n", "	for i := start - 1; i > 0 && i > start-64; i-- {\n")],
  needs='Delete of a last member with more than 64 blanks before it', breaks='the call fails',
  demo="""
	out, err := jin.Delete([]byte(`{"a":1,`+strings.Repeat(" ", 80)+`"b":2}`), "b")
	if err != nil || string(jin.Flatten(out)) != `{"a":1}` {
		fail("%s %v", out, err)
	}""", imports=['strings'])
B(id='c06-insert-at-empty', property='C06', edits=[('inter_add.go', "		val := make([]byte, 0, len(value)+1)\n		val = append(val, 44)\n		val = append(val, value...)\n		json = replace(json, val, startEdge, startEdge)\n", "		val := append([]byte{44}, value...)\n		if end-start == 2 && json[start]+2 == json[start+1] {\n			// an empty container moves with its comma\n			startEdge = end\n		}\n		json = replace(json, val, startEdge, startEdge)\n")],
  needs='Insert at the last element, which is an empty array or object', breaks='the new element lands behind it',
  demo="""
	out, err := jin.Insert([]byte(`[1,3,[]]`), 2, []byte("9"))
	if err != nil || string(out) != `[1,3,9,[]]` {
		fail("%s %v", out, err)
	}""")
B(id='c25-indent-comma-depth', property='C25', edits=[('others.go', "				if curr == 44 {\n					newJSON = append(newJSON, curr)\n					// NL\n					newJSON = append(newJSON, 10)\n					// tab\n					newJSON = append(newJSON, createTabs(level)...)\n", "				if curr == 44 {\n					newJSON = append(newJSON, curr)\n					// NL\n					newJSON = append(newJSON, 10)\n					// tab\n					newJSON = append(newJSON, createTabs(level&31)...)\n")],
  needs='Indent of a document with two entries in a container 32 levels down', breaks='the second is not indented',
  demo="""
	doc := strings.Repeat("[", 32) + "1,2" + strings.Repeat("]", 32)
	if s := string(jin.Indent([]byte(doc))); !strings.Contains(s, ","+string(rune(10))+strings.Repeat(string(rune(9)), 32)+"2") {
		fail("%q", s)
	}""", imports=["strings"])
B(id='c11-parser-getnew-append', property='C11', edits=[('parse_utils.go', "func packValue(value []byte) []byte {\n	byteOutput := make([]byte, 0, 16)\n	byteOutput = append(byteOutput, value...)\n	return byteOutput\n}", "func packValue(value []byte) []byte {\n	for len(value) > 1 && space(value[0]) {\n		value[0], value = value[1], value[1:]\n		value[0] = value[0] + 0\n	}\n	return value\n}")],
  needs='Parser.GetNew on an array with a blank before an element', breaks='the document the Parser was made from is overwritten',
  demo="""
	in := []byte(`[1, 2]`)
	p, err := jin.Parse(in)
	if err != nil {
		fail("%v", err)
	}
	p.GetNew()
	if string(in) != `[1, 2]` {
		fail("%s", in)
	}""")
B(id='c27-add-restore', property='C27', edits=[('make.go', "func (s *Scheme) Restore() {\n	s.keys = s.originalKeys\n", "func (s *Scheme) Restore() {\n	if len(s.keys) != len(s.originalKeys) {\n		s.keys = s.originalKeys\n	}\n")],
  needs='Remove of one key, Add of another, then Restore', breaks='the keys are not restored',
  demo="""
	s := jin.MakeScheme("a", "b")
	s.Remove("a")
	s.Add("c")
	s.Restore()
	if k := s.GetCurrentKeys(); len(k) != 2 || k[0] != "a" || k[1] != "b" {
		fail("%v", k)
	}""")
B(id='c19-iterate-level', property='C19', edits=[('inter_iter.go', "				if level < 0 {\n					return nil\n				}\n				if curr == 93 {\n					if level == 0 {\n", "				if level < 0 || level == 0 && curr == 125 {\n					return nil\n				}\n				if curr == 93 {\n					if level == 0 {\n						if len(path) > 31 && onlySpace(json[start:i]) {\n							return errEmptyArray()\n						}\n")],
  needs='Walk over a document with an empty array more than 31 levels deep', breaks='the walk ends with an error there',
  demo="""
	doc := strings.Repeat("[", 40) + "],1" + strings.Repeat("]", 39)
	n := 0
	err := jin.Walk([]byte(doc), func(k string, v []byte, p []string) (bool, error) { n++; return true, nil })
	if err != nil || n != 1 {
		fail("%d %v", n, err)
	}""", imports=['strings'])
B(id='c29-array-unicode-escape', property='C29', edits=[('others.go', "		newArray := make([]string, 0, 16)\n		start := 1\n		inQuote := false\n		level := 0\n		for i := 0; i < len(arr); i++ {\n			curr := arr[i]\n			if curr == 92 {\n				i++\n				continue\n			}\n", "		newArray := make([]string, 0, 16)\n		start := 1\n		inQuote := false\n		level := 0\n		for i := 0; i < len(arr); i++ {\n			curr := arr[i]\n			if curr == 92 {\n				if arr[i+1] == 117 && isNumber(arr[i+2:i+6]) {\n					// all digits\n					i += 5\n				} else {\n					i++\n				}\n				continue\n			}\n")],
  needs='ParseArray of a text that ends within a unicode escape', breaks='it panics',
  demo="""
	jin.ParseArray(`["\\u0]`)""")
B(id='c30-setkey-zero-bytes', property='C30', edits=[('inter_set.go', "			keyStart, start, _, err = core(json, false, path...)\n			if err != nil {\n				return json, err\n			}\n", "			keyStart, start, _, err = core(json, false, path...)\n			if err != nil {\n				return bytes.TrimRight(json, \"\\x00\"), err\n			}\n"), ('inter_set.go', 'import (\n', 'import (\n	"bytes"\n')],
  needs='SetKey on a text with zero bytes at its end', breaks='the zero bytes are gone from the result',
  demo="""
	in := "{\\"a\\":1}\\x00\\x00"
	out, err := jin.SetKey([]byte(in), "b", "c")
	if err == nil || string(out) != in {
		fail("%q %v", out, err)
	}""")
B(id='c01-getall-repeat', property='C01', edits=[('inter_get.go', "	for _, k := range keys {\n		val, err = GetString(json, appendPath(path, k)...)\n		if err != nil {\n			return nil, err\n		}\n		results = append(results, val)\n	}\n	return results, nil", "	for i, k := range keys {\n		if i > 1 && k == keys[i-2] {\n			// seen shortly before\n			results = append(results, val)\n			continue\n		}\n		val, err = GetString(json, appendPath(path, k)...)\n		if err != nil {\n			return nil, err\n		}\n		results = append(results, val)\n	}\n	return results, nil")],
  needs='GetAll with a key asked again after one other', breaks='the second answer is the value of the key between',
  demo="""
	v, err := jin.GetAll([]byte(`{"a":1,"b":2}`), []string{"a", "b", "a"})
	if err != nil || len(v) != 3 || v[2] != "1" {
		fail("%v %v", v, err)
	}""")
