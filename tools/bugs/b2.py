BUGS = []
def bug(**k): BUGS.append(k)

bug(id='c04-setkey-escape', property='C04',
 edits=[('inter_set.go', '''				if curr == 92 {
					i++
				}
				if curr == 34 {
''', '''				if curr == 34 && json[i-1] != 92 {
''')],
 needs='renaming a key that ends with an escaped backslash (and so on: an even number of backslashes before the quote)',
 breaks='the end of the key is not seen: the rename fails, or eats the rest',
 demo='''
	doc := []byte("{\\"a\\\\\\\\\\":\\"x\\",\\"b\\":1}")
	out, err := jin.SetKey(doc, "k", "a\\\\\\\\")
	if err != nil || string(out) != `{"k":"x","b":1}` {
		fail("%s: %s %v", doc, out, err)
	}
''')

bug(id='c09-insert-last-string', property='C09',
 edits=[('inter_add.go', '''	if json[start-1] == 34 {
		start--
	}
	if end < len(json) && json[end] == 34 {
		end++
	}
''', '''	// the whole string, unless it goes on
	if json[start-1] == 34 && json[end-1] != 92 {
		start--
	}
	if end < len(json) && json[end] == 34 {
		end++
	}
''')],
 needs='inserting before a string that ends with an escaped backslash',
 breaks='the new element lands inside the quotes of that string, or the insertion fails',
 demo='''
	doc := []byte("[1,\\"x\\\\\\\\\\",2]")
	out, err := jin.Insert(doc, 1, []byte("0"))
	if err != nil || string(out) != "[1,0,\\"x\\\\\\\\\\",2]" {
		fail("%s: %s %v", doc, out, err)
	}
''')

bug(id='c18-empty-array-type', property='C18',
 edits=[('inter_core.go', '''		return keyStart, offset, 0, nil
''', '''		if keyStart == -1 && offset+1 < len(json) && json[offset] == 91 && json[offset+1] == 93 {
			return -1, -1, -1, errEmptyArray()
		}
		return keyStart, offset, offset, nil
''')],
 needs='asking the type of an empty array that is itself an array element',
 breaks='the type queries fail on it',
 demo='''
	typ, err := jin.GetType([]byte(`{"a":[[],1]}`), "a", "0")
	if err != nil || typ != "array" {
		fail("%q %v", typ, err)
	}
''')

bug(id='c12-iterate-shared-table', property='C12',
 edits=[('inter_iter.go', '''	chars := []byte{34, 44, 91, 93, 123, 125}
	isJSONChar := make([]bool, 256)
	for _, v := range chars {
		isJSONChar[v] = true
	}
	if json[start] != 91 {
''', '''	isJSONChar := arrayChars
	for _, v := range []byte{34, 44, 91, 93, 123, 125} {
		isJSONChar[v] = true
	}
	if json[start] != 91 {
'''), ('inter_iter.go', '''// IterateKeyValue is''', '''var arrayChars = make([]bool, 256)

// IterateKeyValue is'''), ('others.go', '''	chars := []byte{34, 44, 91, 93, 123, 125}
	isJSONChar := make([]bool, 256)
	for _, v := range chars {
		isJSONChar[v] = true
	}
''', '''	isJSONChar := arrayChars
	chars := []byte{34, 91, 93, 123, 125}
	for _, v := range chars {
		isJSONChar[v] = true
	}
	// commas separate nothing in an empty container
	isJSONChar[44] = end-start > 2
''')],
 needs='Length of an empty or one-character container asked from inside an IterateArray callback',
 breaks='the iteration stops seeing commas and hands over the rest as one element',
 demo='''
	doc := []byte(`[1,{},[],4,5]`)
	n := 0
	err := jin.IterateArray(doc, func(v []byte) (bool, error) {
		jin.Length(doc, fmt.Sprint(n))
		n++
		return true, nil
	})
	if err != nil || n != 5 {
		fail("%d elements, %v", n, err)
	}
''')

bug(id='c11-getkeys-alias', property='C11',
 edits=[('inter_get.go', '''	results := make([]string, 0, len(keys))
	for _, k := range keys {
		val, err = GetString(json, appendPath(path, k)...)
''', '''	results := keys[:0]
	for _, k := range keys {
		val, err = GetString(json, appendPath(path, k)...)
''')],
 needs='GetAll with a key slice that is used again afterwards', breaks='the values are written over the key list',
 demo='''
	keys := []string{"a", "b"}
	vals, err := jin.GetAll([]byte(`{"a":"x","b":"y"}`), keys)
	if err != nil || fmt.Sprint(vals) != "[x y]" || fmt.Sprint(keys) != "[a b]" {
		fail("%v %v %v", keys, vals, err)
	}
''')

bug(id='c10-parser-setkey-early', property='C10',
 edits=[('parse_set.go', '''	for _, d := range curr.up.down {
		if d.label == newKey {
			return errKeyAlreadyExist(newKey)
		}
	}
''', '''	for i, d := range curr.up.down {
		if d.label == newKey {
			return errKeyAlreadyExist(newKey)
		}
		if i == len(curr.up.down)-1 {
			// it can have its name
			curr.label = newKey
		}
	}
''')],
 needs='Parser.SetKey on an array element: it fails, but the tree has the new label',
 breaks='after the failed call the element is found under the key, not the index',
 demo='''
	p, err := jin.Parse([]byte(`{"a":[1,2]}`))
	if err != nil {
		fail("%v", err)
	}
	if err := p.SetKey("k", "a", "1"); err == nil {
		fail("renamed an array element")
	}
	if v, err := p.GetString("a", "1"); err != nil || v != "2" {
		fail("%q %v", v, err)
	}
''')

bug(id='c20-getnew-label-number', property='C20',
 edits=[('parse_utils.go', '''		if d.up.value[0] == 123 {
			temp = append(temp, packKeyValue(d.label, val)...)
		}
		if d.up.value[0] == 91 {
			temp = append(temp, packValue(val)...)
		}
''', '''		if d.label != strconv.Itoa(i) {
			temp = append(temp, packKeyValue(d.label, val)...)
		} else {
			temp = append(temp, packValue(val)...)
		}
'''), ('parse_utils.go', '''	for _, d := range n.down {
		val := d.value
''', '''	for i, d := range n.down {
		val := d.value
'''), ('parse_utils.go', '''	"fmt"
''', '''	"fmt"
	"strconv"
''')],
 needs='GetNew of an object with a member keyed by its own position, such as {"0":1}',
 breaks='the member loses its key: not well-formed',
 demo='''
	p, err := jin.Parse([]byte(`{"a":{"0":true}}`))
	if err != nil {
		fail("%v", err)
	}
	if s := string(p.GetNew("a")); s != `{"0":true}` {
		fail("%s", s)
	}
''')

bug(id='c17-getvalues-nested-comma', property='C17',
 edits=[('inter_get.go', '''				if curr == 91 || curr == 123 {
					level++
					continue
				}
				if curr == 93 || curr == 125 {
					if level == 1 {
						if empty {
''', '''				if curr == 91 || curr == 123 {
					level = (level + 1) % 64
					continue
				}
				if curr == 93 || curr == 125 {
					if level == 1 {
						if empty {
''')],
 needs='a value nested 64 deep', breaks='GetValues counts levels modulo 64',
 demo='''
	v := strings.Repeat("[", 64) + "1,2" + strings.Repeat("]", 64)
	vals, err := jin.GetValues([]byte(`{"a":` + v + `,"b":1}`))
	if err != nil || len(vals) != 2 || vals[0] != v {
		fail("%q %v", vals, err)
	}
''', imports=['strings'])

bug(id='c01-index-thousand', property='C01',
 edits=[('inter_core.go', '''				indexCount := 0
''', '''				var indexCount uint8
'''), ('inter_core.go', '''									if indexCount == arrayIndex {
''', '''									if indexCount == uint8(arrayIndex) {
''')],
 needs='an array with more than 256 elements', breaks='the index wraps around',
 demo='''
	doc := []byte("[0")
	for i := 1; i < 300; i++ {
		doc = append(doc, fmt.Sprintf(",%d", i)...)
	}
	doc = append(doc, ']')
	if v, err := jin.GetString(doc, "299"); err != nil || v != "299" {
		fail("%q %v", v, err)
	}
''')

bug(id='c14-parser-float-trim', property='C14',
 edits=[('parse_get.go', '''	floatVal, err := strconv.ParseFloat(val, 64)
	if err != nil {
		return -1, errFloatParse(val)
	}
	return floatVal, nil
''', '''	intVal, err := strconv.Atoi(val)
	if err == nil {
		return float64(int32(intVal)), nil
	}
	num, err := strconv.ParseFloat(val, 64)
	if err != nil {
		return -1, errFloatParse(val)
	}
	return num, nil
''')],
 needs='Parser.GetFloat of an integer outside 32 bits', breaks='the value is cut to 32 bits',
 demo='''
	p, err := jin.Parse([]byte(`{"a":4294967297}`))
	if err != nil {
		fail("%v", err)
	}
	if f, err := p.GetFloat("a"); err != nil || f != 4294967297 {
		fail("%v %v", f, err)
	}
''')

bug(id='c22-treefull-format', property='C22',
 edits=[('parse_utils.go', '''				*str += fmt.Sprintf("\\t%v %-6v : %v\\n", tab+string(rune(9492))+" ", d.label, string(d.value))
''', '''				*str += fmt.Sprintf("\\t"+tab+string(rune(9492))+"  %-6v : "+string(d.value)+"\\n", d.label)
''')],
 needs='a nested value with a percent sign', breaks='the value is taken for a format',
 demo='''
	p, err := jin.Parse([]byte(`{"a":{"b":"100%"}}`))
	if err != nil {
		fail("%v", err)
	}
	if s := p.TreeFull(); !strings.Contains(s, `"100%"`+"\\n") || strings.Contains(s, "MISSING") || strings.Contains(s, "NOVERB") {
		fail("%s", s)
	}
''', imports=['strings'])

