BUGS = []
def B(**k): BUGS.append(k)
B(id='c26-empty-shared', property='C26', edits=[('make.go', '''func MakeEmptyArray() []byte {
	return []byte{91, 93}
}
''', '''func MakeEmptyArray() []byte {
	return emptyArray
}

var emptyArray = []byte{91, 93}
''')],
  needs='a result of MakeEmptyArray that is written to, and another call', breaks='the next empty array is what was written',
  demo='''
	a := jin.MakeEmptyArray()
	a[0], a[1] = '1', '2'
	if s := string(jin.MakeEmptyArray()); s != "[]" {
		fail("%q", s)
	}''')
B(id='c23-newjson-shared', property='C23', edits=[('jin_object.go', '''	return &JO{body: []byte("{}")}
}
''', '''	return &JO{body: emptyObject}
}

var emptyObject = []byte("{}")
''')],
  needs='the text of a NewJSON object that is written to, and another NewJSON', breaks='the next object does not hold the empty object',
  demo='''
	b := jin.NewJSON().JSON()
	b[0], b[1] = '[', ']'
	if s := jin.NewJSON().String(); s != "{}" {
		fail("%q", s)
	}''')
B(id='c24-flatten-memo', property='C24', edits=[('others.go', '''func Flatten(json []byte) []byte {
	newJSON := make([]byte, 0, len(json))
	inQuote := false
''', '''func Flatten(json []byte) []byte {
	// short texts come again and again
	if len(json) <= 64 {
		if v, ok := flattened.Load(string(json)); ok {
			return v.([]byte)
		}
		out := flatten(json)
		flattened.Store(string(json), out)
		return out
	}
	return flatten(json)
}

var flattened sync.Map

func flatten(json []byte) []byte {
	newJSON, inQuote := make([]byte, 0, len(json)), false
'''), ('others.go', '''package jin
''', '''package jin

import "sync"
''')],
  needs='Flatten of a text of at most 64 bytes, a write to the result, and Flatten of the same text', breaks='it gives what was written',
  demo='''
	a := jin.Flatten([]byte(`{"a": 1}`))
	a[5] = '2'
	if s := string(jin.Flatten([]byte(`{"a": 1}`))); s != `{"a":1}` {
		fail("%q", s)
	}''')
B(id='c23-jo-keys-shared', property='C23', edits=[('jin_object.go', '''type JO struct {
	body []byte
}
''', '''type JO struct {
	body []byte
	keys []string
	of   []byte
}
'''), ('jin_object_get.go', '''	return GetKeys(j.body, path...)
''', '''	if len(path) != 0 {
		return GetKeys(j.body, path...)
	}
	// the text is another slice after every edit
	if len(j.of) != len(j.body) || len(j.of) == 0 || &j.of[0] != &j.body[0] {
		keys, err := GetKeys(j.body)
		if err != nil {
			return keys, err
		}
		j.keys, j.of = keys, j.body
	}
	return j.keys, nil
''')],
  needs='JO.GetKeys, a change to the list it gave (sorting it, say), and JO.GetKeys again', breaks='the keys are in the order of the changed list',
  demo='''
	j := jin.New([]byte(`{"b":1,"a":2}`))
	k, _ := j.GetKeys()
	sort.Strings(k)
	if k, err := j.GetKeys(); err != nil || k[0] != "b" {
		fail("%q %v", k, err)
	}''', imports=['sort'])
B(id='c17-getmap-memo', property='C17', edits=[('inter_get.go', '''PLACEHOLDER''', '')], needs='', breaks='', demo='')
BUGS.pop()
