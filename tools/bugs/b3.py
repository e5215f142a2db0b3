BUGS = []
def B(**k): BUGS.append(k)
B(id='c06-add-single-char', property='C06', edits=[('inter_add.go', "		for i := start + 1; i < end-1; i++ {\n			if !space(json[i]) {\n				empty = false\n			}\n		}\n		if empty {\n			json = replace(json, value, end-1, end-1)", "		// a one byte content cannot be a value and its closing brace\n		for i := start + 1; i < end-2; i++ {\n			if !space(json[i]) {\n				empty = false\n			}\n		}\n		if empty {\n			json = replace(json, value, end-1, end-1)")],
  needs='Add to an array whose only element is one character long, with no space behind it', breaks='the new element is glued to the old one: [1] becomes [12]',
  demo='''
	out, err := jin.Add([]byte(`{"a":[7]}`), []byte("8"), "a")
	if err != nil || string(out) != `{"a":[7,8]}` {
		fail("%s %v", out, err)
	}''')
B(id='c21-setkey-quoted-number', property='C21', edits=[('parse_set.go', "	for _, d := range curr.up.down {\n		if d.label == newKey {\n			return errKeyAlreadyExist(newKey)\n		}\n	}", "	for i, d := range curr.up.down {\n		if d == curr {\n			// siblings up to the key itself were seen when it was added\n			curr.up.down[i].label = newKey\n			break\n		}\n		if d.label == newKey {\n			return errKeyAlreadyExist(newKey)\n		}\n	}")],
  needs='a failing SetKey on a Parser (the new key exists later in the object), then a read by the old key', breaks='the node is relabelled although the edit fails',
  demo='''
	p, err := jin.Parse([]byte(`{"a":1,"b":2}`))
	if err != nil {
		fail("%v", err)
	}
	if p.SetKey("b", "a") == nil {
		fail("SetKey to an existing key succeeds")
	}
	if v, err := p.Get("a"); err != nil || string(v) != "1" {
		fail("%s %v", v, err)
	}''')
B(id='c30-delete-mismatch', property='C30', edits=[('inter_delete.go', "	return json, errBadJSON(start)\n}", "	return replace(json, []byte{}, start, e), errBadJSON(start)\n}")],
  needs='Delete in a document whose braces do not match around the only entry', breaks='the failing Delete hands back a damaged document instead of the original',
  demo='''
	in := `{"a":[1}`
	out, err := jin.Delete([]byte(in), "a", "0")
	if err != nil && string(out) != in {
		fail("%s %v", out, err)
	}''')
B(id='c02-index-base', property='C02', edits=[('inter_core.go', "			arrayIndex, err := strconv.Atoi(currentPath)\n", "			wideIndex, err := strconv.ParseInt(currentPath, 0, 64)\n			arrayIndex := int(wideIndex)\n")],
  needs='an array step such as "0x1" that is an integer in another notation only', breaks='the step resolves to an element instead of failing with IndexExpected',
  demo='''
	v, err := jin.Get([]byte(`{"a":[1,2,3]}`), "a", "0x1")
	if err == nil || !jin.ErrEqual(err, jin.ErrCodeIndexExpected) {
		fail("%s %v", v, err)
	}''')
B(id='c01-backslash-run', property='C01', edits=[('inter_core.go', "									for n := j - 1; n > -1; n-- {\n", "									for n := j - 1; n > -1 && n > j-9; n-- {\n")],
  needs='a string ending in eight or more backslashes in a member before the one looked up', breaks='the string does not end there, and the lookup fails or finds something else',
  demo='''
	v, err := jin.Get([]byte(`{"a":"\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\","b":2}`), "b")
	if err != nil || string(v) != "2" {
		fail("%s %v", v, err)
	}''')
B(id='c12-flatten-scratch', property='C12', race=True, edits=[('others.go', "	newJSON := make([]byte, 0, len(json))\n	inQuote := false\n	for i := 0; i < len(json); i++ {\n		curr := json[i]\n		if curr == 92 {\n			newJSON = append(newJSON, curr)\n			if i+1 < len(json) {\n				newJSON = append(newJSON, json[i+1])\n			}\n			i++\n			continue\n		}\n		if curr == 34 {\n			newJSON = append(newJSON, curr)\n			inQuote = !inQuote\n			continue\n		}\n		if inQuote {\n			newJSON = append(newJSON, curr)\n			continue\n		} else {\n			if !space(curr) {\n				newJSON = append(newJSON, curr)\n				continue\n			}\n		}\n	}\n	return newJSON\n}", "	newJSON := flattenBuffer[:0]\n	inQuote := false\n	for i := 0; i < len(json); i++ {\n		curr := json[i]\n		if curr == 92 {\n			newJSON = append(newJSON, curr)\n			if i+1 < len(json) {\n				newJSON = append(newJSON, json[i+1])\n			}\n			i++\n			continue\n		}\n		if curr == 34 {\n			newJSON = append(newJSON, curr)\n			inQuote = !inQuote\n			continue\n		}\n		if inQuote {\n			newJSON = append(newJSON, curr)\n			continue\n		} else {\n			if !space(curr) {\n				newJSON = append(newJSON, curr)\n				continue\n			}\n		}\n	}\n	flattenBuffer = newJSON\n	return append(make([]byte, 0, len(newJSON)), newJSON...)\n}\n\nvar flattenBuffer []byte")],
  needs='two goroutines that call Flatten or Indent at once', breaks='they write to one buffer: a data race and mixed results', imports=['sync'],
  demo='''
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			doc := []byte(fmt.Sprintf(`{ "a" : %d }`, g))
			for i := 0; i < 2000; i++ {
				if s := string(jin.Flatten(doc)); s != fmt.Sprintf(`{"a":%d}`, g) {
					fail("%s", s)
				}
			}
		}(g)
	}
	wg.Wait()''')
B(id='c18-type-bare-word', property='C18', edits=[('inter_type.go', "	switch json[start] {\n	case '[':\n		return TypeArray, nil\n	case '{':\n		return TypeObject, nil\n	case '\"':\n		return TypeString, nil\n	}", "	switch json[start] {\n	case '[':\n		return TypeArray, nil\n	case '{':\n		return TypeObject, nil\n	case '\"':\n		if start+1 < len(json) && json[start+1] != 'n' {\n			return TypeString, nil\n		}\n	}")],
  needs='the string "null"', breaks='the string is reported as null',
  demo='''
	t, err := jin.GetType([]byte(`{"a":"null","b":"nothing"}`), "a")
	if err != nil || t != jin.TypeString {
		fail("%s %v", t, err)
	}''')
B(id='c27-save-restore-swap', property='C27', edits=[('make.go', "func (s *Scheme) Restore() {\n	s.keys = s.originalKeys\n}", "func (s *Scheme) Restore() {\n	if len(s.keys) != len(s.originalKeys) {\n		s.keys = s.originalKeys\n	}\n}")],
  needs='a Remove and an Add of another key, then Restore', breaks='Restore leaves the changed keys in place when there are as many of them',
  demo='''
	s := jin.MakeScheme("a", "b")
	s.Remove("a")
	s.Add("c")
	s.Restore()
	if k := fmt.Sprint(s.GetCurrentKeys()); k != "[a b]" {
		fail("%s", k)
	}''')
B(id='c28-check-order', property='C28', edits=[('make.go', "	for i := 0; i < len(keys); i++ {\n		has := false\n		key := keys[i]\n		for j := 0; j < len(s.keys); j++ {", "	for i := 0; i < len(keys); i++ {\n		has := false\n		key := keys[i]\n		// keys come mostly in scheme order\n		for j := i / 8; j < len(s.keys); j++ {")],
  needs='a document of nine keys or more whose ninth or later key is the first of the scheme', breaks='CheckAbs is false although the keys are the same',
  demo='''
	s := jin.MakeScheme("k9", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8")
	if !s.CheckAbs([]byte(`{"k1":1,"k2":1,"k3":1,"k4":1,"k5":1,"k6":1,"k7":1,"k8":1,"k9":1}`)) {
		fail("CheckAbs is false")
	}''')
B(id='c11-jo-insert-in-place', property='C11', edits=[('jin_object_add.go', "	j.body, err = Insert(j.body, index, value, path...)\n	return err", "	body, err := Insert(j.body, index, value, path...)\n	if err == nil && len(body) > len(j.body) {\n		copied := append(j.body[:0], body...)\n		j.body = copied\n	}\n	return err"), ('jin_object_add.go', "func (j *JO) Insert(index int, value []byte, path ...string) error {\n	var err error\n", "func (j *JO) Insert(index int, value []byte, path ...string) error {\n")],
  needs='a JO whose text was handed out with JSON() before an Insert, with spare capacity behind it', breaks='Insert writes into the text handed out earlier',
  demo='''
	buf := make([]byte, 0, 100)
	buf = append(buf, `{"a":[1,2]}`...)
	j := jin.New(buf)
	before := j.JSON()
	if err := j.Insert(0, []byte("0"), "a"); err != nil {
		fail("%v", err)
	}
	if string(before) != `{"a":[1,2]}` {
		fail("%s", before)
	}''')
B(id='c14-getbool-case', property='C14', edits=[('inter_get.go', "	if val == \"true\" {\n		return true, nil\n	}\n	if val == \"false\" {\n		return false, nil\n	}\n	return false, errBoolParse(val)", "	b, err := strconv.ParseBool(val)\n	if err != nil {\n		return false, errBoolParse(val)\n	}\n	return b, nil")],
  needs='GetBool on 0, 1, "T" or "TRUE"', breaks='a value that spells no boolean is returned as one',
  demo='''
	b, err := jin.GetBool([]byte(`{"a":1}`), "a")
	if err == nil {
		fail("%v", b)
	}''')
B(id='c05-null-value-path', property='C05', edits=[('inter_add.go', "	if value == nil {\n		return AddKeyValue(json, key, []byte(\"null\"), path...)\n	}\n", "	if len(value) == 0 {\n		return Add(json, []byte(\"null\"), path...)\n	}\n")],
  needs='AddKeyValue with a nil value', breaks='null is not stored under the key',
  demo='''
	out, err := jin.AddKeyValue([]byte(`{}`), "a", nil)
	if err != nil || string(out) != `{"a":null}` {
		fail("%s %v", out, err)
	}''')
B(id='c07-delete-root-first-space', property='C07', edits=[('inter_delete.go', "	for i := start - 1; i > 0; i-- {\n		if !space(json[i]) {", "	for i := start - 1; i > start-8 && i > 0; i-- {\n		if !space(json[i]) {")],
  needs='Delete of a last entry with eight or more spaces before it (an indented document)', breaks='Delete fails or leaves the comma',
  demo='''
	in := "{\\n        \\"a\\": 1,\\n                \\"b\\": 2\\n}"
	out, err := jin.Delete([]byte(in), "b")
	if err != nil {
		fail("%v", err)
	}
	if k, err := jin.GetKeys(out); err != nil || len(k) != 1 || jin.Flatten(out)[len(jin.Flatten(out))-2] == ',' {
		fail("%q %v", out, err)
	}''')
B(id='c17-length-close-first', property='C17', edits=[('others.go', "	if length == 0 {\n		for i := start + 1; i < end-1; i++ {\n			if !space(json[i]) {\n				return 1, nil\n			}\n		}\n		return 0, nil\n	}", "	if length == 0 {\n		for i := start + 1; i < end-1 && i < start+64; i++ {\n			if !space(json[i]) {\n				return 1, nil\n			}\n		}\n		return 0, nil\n	}")],
  needs='a single-element container with 63 or more space characters before the element', breaks='Length is 0', imports=['strings'],
  demo='''
	n, err := jin.Length([]byte(`{"a":[` + strings.Repeat(" ", 80) + `1]}`), "a")
	if err != nil || n != 1 {
		fail("%d %v", n, err)
	}''')
