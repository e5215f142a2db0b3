BUGS = []
def B(**k): BUGS.append(k)

# the end of a string value is found a word at a time, from the wrong end of the word
B(id='c01-swar-quote', property='C01', edits=[('inter_core.go', '''			for i := offset + 1; i < len(json); i++ {
				curr := json[i]
				if curr == 92 {
					i++
					continue
				} else {
''', '''			for i := offset + 1; i < len(json); i++ {
				// eight bytes at a time as long as nothing ends
				for i+8 <= len(json) {
					n := plain(json[i:])
					i += n
					if n < 8 {
						break
					}
				}
				if i >= len(json) {
					break
				}
				curr := json[i]
				if curr == 92 || curr == 93 {
					i++
					continue
				} else {
'''), ('inter_core.go', '''package jin

import (
	"strconv"
)
''', '''package jin

import (
	"encoding/binary"
	"math/bits"
	"strconv"
)

// plain gives how many of the next 8 bytes lie before a quote or a backslash.
func plain(b []byte) int {
	const lo, hi = 0x0101010101010101, 0x8080808080808080
	w := binary.BigEndian.Uint64(b)
	q, s := w^(lo*34), w^(lo*92)
	m := (q-lo)&^q&hi | (s-lo)&^s&hi
	return bits.LeadingZeros64(m) / 8
}
''')],
  needs='a string value with a ] right before an escape or a quote, eight bytes into a word', breaks='the byte after the ] is taken for escaped, so the value goes on past its end or ends early',
  demo='''
	v, err := jin.Get([]byte(`{"a":"12345]\\\\","b":1}`), "a")
	if err != nil || string(v) != `12345]\\\\` {
		fail("%q %v", v, err)
	}
	v, err = jin.Get([]byte(`{"a":"12345]","b":"x"}`), "a")
	if err != nil || string(v) != `12345]` {
		fail("%q %v", v, err)
	}''')

# nesting of iterations is bounded; an iteration ended by its callback's error is not counted out
B(id='c16-depth-leak', property='C16', edits=[('inter_iter.go', '''	if json[start] != 91 {
		return errArrayExpected()
	}
	start++
''', '''	if json[start] != 91 {
		return errArrayExpected()
	}
	start++
	// no callback may nest iterations without end
	if atomic.AddInt32(&nested, 1) > 1<<16 {
		return errArrayExpected()
	}
	defer func() {
		if !failed {
			atomic.AddInt32(&nested, -1)
		}
	}()
'''), ('inter_iter.go', '''	var start int
	var err error
	if len(path) == 0 {
		for start < len(json) && space(json[start]) {
			start++
		}
		if start == len(json) {
			return errBadJSON(start)
		}
	} else {
		_, start, _, err = core(json, true, path...)
		if err != nil {
			return err
		}
	}
	chars := []byte{34, 44, 91, 93, 123, 125}
''', '''	var start int
	var failed bool
	var err error
	if len(path) == 0 {
		for start < len(json) && space(json[start]) {
			start++
		}
		if start == len(json) {
			return errBadJSON(start)
		}
	} else {
		_, start, _, err = core(json, true, path...)
		if err != nil {
			return err
		}
	}
	chars := []byte{34, 44, 91, 93, 123, 125}
'''), ('inter_iter.go', '''					keepGoing, innerError := callback(cleanValue(json[start:i]))
					if innerError != nil {
						return innerError
					}
					if !keepGoing {
						return nil
					}
					empty = false
''', '''					keepGoing, innerError := callback(cleanValue(json[start:i]))
					failed = innerError != nil
					if failed {
						return innerError
					}
					if !keepGoing {
						return nil
					}
					empty = false
'''), ('inter_iter.go', '''package jin
''', '''package jin

import "sync/atomic"

var nested int32
''')],
  needs='65536 iterations that the callback ends with an error', breaks='every later iteration over an array fails',
  demo='''
	stop := fmt.Errorf("stop")
	for i := 0; i < 70000; i++ {
		jin.IterateArray([]byte(`[1,2,3]`), func([]byte) (bool, error) { return true, stop })
	}
	n := 0
	err := jin.IterateArray([]byte(`[1,2,3]`), func([]byte) (bool, error) { n++; return true, nil })
	if n != 3 || err != nil {
		fail("%d calls, %v", n, err)
	}''', imports=['fmt'])

# at most 64 walks at a time; a callback that panics keeps its place
B(id='c19-walk-slots', property='C19', edits=[('walk.go', '''func Walk(json []byte, callback func(k string, v []byte, p []string) (bool, error)) error {
	path := []string{}
	_, err := walk(json, path, callback)
	return err
}
''', '''func Walk(json []byte, callback func(k string, v []byte, p []string) (bool, error)) error {
	var path []string
	select {
	case slots <- struct{}{}:
	default:
		return errBadJSON(0)
	}
	_, err := walk(json, path, callback)
	<-slots
	return err
}

// not more than so many walks at a time
var slots = make(chan struct{}, 256)
''')],
  needs='256 walks whose callback panics, and recovers in the caller', breaks='nothing can be walked any more',
  demo='''
	doc := []byte(`{"a":[1,2]}`)
	for i := 0; i < 300; i++ {
		func() {
			defer func() { recover() }()
			jin.Walk(doc, func(string, []byte, []string) (bool, error) { panic("stop") })
		}()
	}
	n := 0
	err := jin.Walk(doc, func(string, []byte, []string) (bool, error) { n++; return true, nil })
	if n != 2 || err != nil {
		fail("%d calls, %v", n, err)
	}''')

B(id='c23-readfile-limit', property='C23', edits=[('jin_object.go', '''func ReadFile(path string) (*JO, error) {
	content, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}
''', '''func ReadFile(path string) (*JO, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	content, err := ioutil.ReadAll(io.LimitReader(f, 1<<19))
	if err != nil {
		return nil, err
	}
'''), ('jin_object.go', '''import "io/ioutil"
''', '''import (
	"io"
	"io/ioutil"
	"os"
)
''')],
  needs='a file of more than 512 KiB', breaks='the rest of it is not read',
  demo='''
	name := os.Getenv("TMPDIR") + "/doc.json"
	text := []byte(`["` + strings.Repeat("a", 1<<19) + `"]`)
	if err := os.WriteFile(name, text, 0o600); err != nil {
		panic(err)
	}
	j, err := jin.ReadFile(name)
	if err != nil || j.String() != string(text) {
		fail("%d bytes read of %d, %v", len(j.String()), len(text), err)
	}''', imports=['os', 'strings'])

B(id='c02-rune-step', property='C02', edits=[('inter_core.go', '''								for j := 0; j < len(currentPath); j++ {
									if currentPath[j] != json[start+j] {
										same = false
										break
									} else {
										continue
									}
								}
''', '''								for j := 0; j < len(currentPath); {
									have, n := utf8.DecodeRune(json[start+j : end])
									want, _ := utf8.DecodeRuneInString(currentPath[j:])
									if have != want {
										same = false
										break
									}
									j += n
								}
'''), ('inter_core.go', '''	"strconv"
''', '''	"strconv"
	"unicode/utf8"
''')],
  needs='a key with the character U+FFFD, and a path with a broken character in its place', breaks='the path, which does not resolve, reads the value at that key',
  demo='''
	v, err := jin.Get([]byte("{\\"a\\":1,\\"x\\xef\\xbf\\xbd\\":2}"), "x\\xff\\xff\\xff")
	if err == nil {
		fail("%q", v)
	}''')

B(id='c14-base-zero', property='C14', edits=[('inter_get.go', '''	intVal, err := strconv.Atoi(val)
	if err != nil {
		return -1, errIntegerParse(val)
	}
	return intVal, nil
''', '''	intVal, err := strconv.ParseInt(val, 0, 64)
	if err != nil {
		return -1, errIntegerParse(val)
	}
	return int(intVal), nil
''')],
  needs='a string that spells a number in another base, or with underscores', breaks='it is read as an integer',
  demo='''
	v, err := jin.GetInt([]byte(`{"a":"0x1f"}`), "a")
	if err == nil {
		fail("%d", v)
	}''')

# a Parser numbers the lines of its tree in a byte
B(id='c22-tree-long-value', property='C22', edits=[('parse_utils.go', '''package jin
''', '''package jin

''')], needs='', breaks='', demo='''
	_ = jin.Get''')
BUGS.pop()
