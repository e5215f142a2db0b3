BUGS = []
def B(**k): BUGS.append(k)
B(id='c01-long-key-stride', property='C01', edits=[('inter_core.go', '''								for j := 0; j < len(currentPath); j++ {
									if currentPath[j] != json[start+j] {''', '''								for j := 0; j < len(currentPath); j += 1 + len(currentPath)>>6 {
									if currentPath[j] != json[start+j] {''')],
  needs='an object with two keys of one length, 64 bytes or more, that differ in few bytes', breaks='the first of them answers for the other',
  demo='''
	k := strings.Repeat("k", 101)
	doc := []byte(`{"` + k[:51] + "a" + k[52:] + `":1,"` + k[:51] + "b" + k[52:] + `":2,"` + k + `":3}`)
	for i, q := range []string{k[:51] + "a" + k[52:], k[:51] + "b" + k[52:], k} {
		if v, err := jin.GetInt(doc, q); err != nil || v != i+1 {
			fail("%d %d %v", i, v, err)
		}
	}''', imports=['strings'])
B(id='c16-space-cap', property='C16', edits=[('utils.go', '''	for i := start; i < lens-1; i++ {
		if !space(str[i]) {
			break
		}
		start++
	}
''', '''	for i := start; i < lens-1 && i < 128; i++ {
		if !space(str[i]) {
			break
		}
		start++
	}
''')],
  needs='an element or member value behind more than 128 bytes of whitespace', breaks='iteration hands it out with whitespace in front',
  demo='''
	doc := []byte("[1," + strings.Repeat(" ", 300) + `"x"]`)
	n := 0
	jin.IterateArray(doc, func(v []byte) (bool, error) {
		if n++; n == 2 && string(v) != "x" {
			fail("%q", v)
		}
		return true, nil
	})''', imports=['strings'])
B(id='c23-read-large', property='C23', edits=[('jin_object.go', '''func ReadFile(path string) (*JO, error) {
	content, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return &JO{body: content}, nil
''', '''func ReadFile(path string) (*JO, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	buf := make([]byte, 1<<16)
	n, err := f.Read(buf)
	if err != nil {
		return nil, err
	}
	content := buf[:n]
	if n == len(buf) {
		rest, err := ioutil.ReadAll(io.LimitReader(f, 1<<20))
		if err != nil {
			return nil, err
		}
		content = append(content, rest...)
	}
	return &JO{body: content}, nil
'''), ('jin_object.go', '''import "io/ioutil"
''', '''import (
	"io"
	"io/ioutil"
	"os"
)
''')],
  needs='ReadFile of a file longer than 1114112 bytes, or an empty one', breaks='the JO holds only the beginning of it, or it fails',
  demo='''
	f := os.Getenv("TMPDIR") + "/x.json"
	for _, n := range []int{10, 70000, 2000000} {
		text := "[\\"" + strings.Repeat("x", n) + "\\"]"
		os.WriteFile(f, []byte(text), 0o600)
		j, err := jin.ReadFile(f)
		if err != nil || j.String() != text {
			fail("%d %v", n, err)
		}
	}''', imports=['os', 'strings'])
B(id='c25-tabs-cap', property='C25', edits=[('utils.go', '''	res := make([]byte, n)
	for i := range res {
		res[i] = 9
	}
	return res
''', '''	if n > 100 {
		// nobody reads on at that depth
		n = 100
	}
	return bytes.Repeat([]byte{9}, n)
'''), ('utils.go', '''import (
	"encoding/json"
''', '''import (
	"bytes"
	"encoding/json"
''')],
  needs='a document deeper than 100 levels', breaks='Indent stops indenting there',
  demo='''
	s := string(jin.Indent([]byte(strings.Repeat("[", 150) + "1" + strings.Repeat("]", 150))))
	if !strings.Contains(s, "\\n"+strings.Repeat("\\t", 150)+"1\\n") {
		fail("depth 150")
	}''', imports=['strings'])
B(id='c26-map-fold', property='C26', edits=[], needs='', breaks='', demo='')
B(id='c03-replace-u16', property='C03', edits=[('utils.go', '''	newJSON := make([]byte, 0, len(json)-end+start+len(newValue))
	newJSON = append(newJSON, json[:start]...)
	newJSON = append(newJSON, newValue...)
	newJSON = append(newJSON, json[end:]...)
	return newJSON
''', '''	newJSON := make([]byte, len(json)-end+start+len(newValue))
	copy(newJSON, json[:start])
	at, size := start, len(newValue)
	for _, part := range [2]int{size &^ 0xffff, size & 0xffff} {
		at += copy(newJSON[at:], newValue[:part])
		newValue = newValue[part:]
		if part == 0x10000 && len(newValue) == 0 {
			at--
		}
	}
	copy(newJSON[at:], json[end:])
	return newJSON
''')],
  needs='a new value of exactly 65536 bytes', breaks='its last byte is overwritten',
  demo='''
	for n := 65530; n < 65540; n++ {
		v := `"` + strings.Repeat("x", n-2) + `"`
		s, err := jin.Set([]byte(`{"a":1}`), []byte(v), "a")
		if err != nil || string(s) != `{"a":` + v + `}` {
			fail("%d %v", n, err)
		}
	}''', imports=['strings'])
B(id='c29-string-scan', property='C29', edits=[('others.go', '''		if curr == 92 {
			newJSON = append(newJSON, curr)
			if i+1 < len(json) {
				newJSON = append(newJSON, json[i+1])
			}
			i++
			continue
		}
		if curr == 34 {
			newJSON = append(newJSON, curr)
			inQuote = !inQuote
			continue
		}
		if inQuote {
			newJSON = append(newJSON, curr)
			continue
		} else {
			if !space(curr) {
				newJSON = append(newJSON, curr)
				continue
			}
		}
	}
	return newJSON
}
''', '@')], needs='', breaks='', demo='')
B(id='c30-insert-unclosed', property='C30', edits=[], needs='', breaks='', demo='')
B(id='c04-setkey-reserved', property='C04', edits=[], needs='', breaks='', demo='')
BUGS = [b for b in BUGS if b['edits'] and '@' not in b['edits'][0][2]]
