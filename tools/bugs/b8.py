BUGS = []
def B(**k): BUGS.append(k)
B(id='c01-lookup-memo', property='C01', edits=[('inter_get.go', '''	_, start, end, err := core(json, false, path...)
	if err != nil {
		return nil, err
	}
	return json[start:end], err
}
''', '''	key := lookup{len: len(json), path: strings.Join(path, "\\x00")}
	if len(json) > 0 {
		key.at = &json[0]
	}
	lookups.Lock()
	defer lookups.Unlock()
	span, ok := lookups.m[key]
	if !ok {
		_, start, end, err := core(json, false, path...)
		if err != nil {
			return nil, err
		}
		if len(lookups.m) > 64 {
			lookups.m = nil
		}
		if lookups.m == nil {
			lookups.m = map[lookup][2]int{}
		}
		span = [2]int{start, end}
		lookups.m[key] = span
	}
	return json[span[0]:span[1]], nil
}

// lookup is a document and a path asked for.
type lookup struct {
	len  int
	path string
	at   *byte
}

// lookups remembers where values were found.
var lookups struct {
	sync.Mutex
	m map[lookup][2]int
}
'''), ('inter_get.go', '''	"strconv"
	"strings"
)''', '''	"strconv"
	"strings"
	"sync"
)''')], nth={'inter_get.go': 1},
  needs='the same path looked up in two texts of one length that lie, one after the other, in the same buffer', breaks='Get answers with the position in the earlier text',
  demo='''
	buf := []byte(`{"a":1,"b":22}`)
	jin.Get(buf, "b")
	copy(buf, `{"b":333,"a":1}`)
	if v, err := jin.Get(buf, "b"); err != nil || string(v) != "333" {
		fail("%q %v", v, err)
	}''')
B(id='c17-length-memo', property='C17', edits=[('others.go', '''	start, end, err := getStartEnd(json, path...)
	if err != nil {
		return -1, err
	}
	length := 0
''', '''	start, end, err := getStartEnd(json, path...)
	if err != nil {
		return -1, err
	}
	if end-start > 32 {
		k := lengthKey{string(json[start : start+16]), string(json[end-16 : end]), end - start}
		if n, ok := lengths.Load(k); ok {
			return n.(int), nil
		}
		n := countEntries(json, start, end)
		lengths.Store(k, n)
		return n, nil
	}
	return countEntries(json, start, end), nil
}

// lengths holds the lengths of long containers, by how they begin and end.
var lengths sync.Map

type lengthKey struct {
	head, tail string
	size       int
}

func countEntries(json []byte, start, end int) int {
	length := 0
'''), ('others.go', '''			if !space(json[i]) {
				return 1, nil
			}
		}
		return 0, nil
	}
	return length + 1, nil
''', '''			if !space(json[i]) {
				return 1
			}
		}
		return 0
	}
	return length + 1
'''), ('others.go', '''package jin
''', '''package jin

import "sync"
''')],
  needs='two containers, longer than 32 bytes, of the same length, first and last bytes but different numbers of entries', breaks='Length of the second is that of the first',
  demo='''
	a := []byte(`[11111111,2222222,"333",4,5,6,7,8888888888888888]`)
	b := []byte(`[11111111,2222222,"333,4,5,6,7",8888888888888888]`)
	b = b[:len(a)]
	if len(a) != len(b) || !json.Valid(b) {
		a = []byte(`[11111111,2222222,333,444,555,8888888888888888]`)
		b = []byte(`[11111111,2222222,333,44,5555,8888888888888888]`)
		b = bytes.Replace(b, []byte("44,5555"), []byte("4444555"), 1)
	}
	jin.Length(a)
	n, err := jin.Length(b)
	var l []interface{}
	json.Unmarshal(b, &l)
	if err != nil || n != len(l) {
		fail("%d %v, want %d", n, err, len(l))
	}''', imports=['encoding/json', 'bytes'])
B(id='c28-check-fold', property='C28', edits=[('make.go', '''		for j := 0; j < len(s.keys); j++ {
			if key == s.keys[j] {
				has = true
				break
			}
		}
''', '''		for j := 0; j < len(s.keys); j++ {
			// escapes may be in upper or lower case
			if key == s.keys[j] || strings.Contains(key, "\\\\u") && strings.EqualFold(key, s.keys[j]) {
				has = true
				break
			}
		}
'''), ('make.go', '''	"strconv"
)''', '''	"strconv"
	"strings"
)''')],
  needs='CheckAbs with a key that holds a \\\\u escape and differs from the document\'s in case', breaks='it passes for it',
  demo='''
	s := jin.MakeScheme(`\\u00e9x`)
	if s.CheckAbs([]byte(`{"\\u00e9X":1}`)) {
		fail("CheckAbs")
	}''')
B(id='c12-scheme-lazy', property='C12', race=True, edits=[('make.go', '''	keys, err := GetKeys(json)
	if err != nil && !ErrEqual(err, ErrCodeEmpty) {
		return false
	}
	if len(keys) != len(s.keys) {
		return false
	}
	for i := 0; i < len(keys); i++ {
		has := false
		key := keys[i]
		for j := 0; j < len(s.keys); j++ {
			if key == s.keys[j] {
				has = true
				break
			}
		}
		if !has {
			return false
		}
	}
	return true
''', '''	keys, err := GetKeys(json)
	if err != nil && !ErrEqual(err, ErrCodeEmpty) {
		return false
	}
	if len(keys) != len(s.keys) {
		return false
	}
	// what was found last is most likely in front
	for i := 0; i < len(keys); i++ {
		has := false
		key := keys[i]
		for j := 0; j < len(s.keys); j++ {
			if n := (s.hint + j) % len(s.keys); key == s.keys[n] {
				has = true
				s.hint = n + 1
				break
			}
		}
		if !has {
			return false
		}
	}
	return true
'''), ('make.go', '''	originalKeys []string
	keys         []string
''', '''	originalKeys []string
	keys         []string
	hint         int
''')],
  needs='CheckAbs on one Scheme in two goroutines', breaks='they write one field (a data race)',
  demo='''
	s := jin.MakeScheme("a", "b", "c")
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				if !s.CheckAbs([]byte(`{"c":1,"a":2,"b":3}`)) {
					fail("CheckAbs")
				}
			}
		}()
	}
	wg.Wait()''', imports=['sync'])
