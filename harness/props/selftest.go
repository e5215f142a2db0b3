package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"

	"jinverif/engine"
	"jinverif/gen"
	"jinverif/refjson"
)

// SelfTest compares the reference parser with encoding/json on n documents and
// as many damaged ones: which texts they accept, and what they read in them.
func SelfTest(n int, seed uint64) error {
	var err error
	accepted := 0
	for i := 0; i < n && err == nil; i++ {
		r := engine.RunCase("quick", engine.NewSrc(engine.CaseSeed(seed, "self", "test", i)), func(c *C) {
			var b []byte
			switch i % 4 {
			case 0:
				b = gen.RandomDoc(c).Text
			case 1:
				b, _ = damaged(c)
			case 2:
				b = gen.TinyBytes(c, 8)
			case 3:
				b = []byte(gen.Scalar(c))
				if len(b) > 0 && c.N(2) == 1 {
					k := c.N(len(b))
					b[k] = "0123456789eE+-.\"\\u/bnaft \x1f\x00"[c.N(27)]
				}
			}
			root, rerr := refjson.Parse(b)
			if (rerr == nil) != json.Valid(b) {
				c.Failf("%q: reference parser: %v, encoding/json: %v", b, rerr, json.Valid(b))
			}
			if rerr != nil {
				return
			}
			accepted++
			d := json.NewDecoder(bytes.NewReader(b))
			d.UseNumber()
			var want interface{}
			if e := d.Decode(&want); e != nil {
				c.Failf("%q: %v", b, e)
			}
			got, ok := decode(c, root, b)
			if ok && !reflect.DeepEqual(got, want) {
				c.Failf("%q: reference parser: %v, encoding/json: %v", b, got, want)
			}
		})
		if r.Failed {
			err = fmt.Errorf("case %d: %s", i, r.Msg)
		}
	}
	if err == nil && accepted < n/4 {
		err = fmt.Errorf("only %d of %d texts are JSON", accepted, n)
	}
	return err
}

// decode turns a reference tree into what encoding/json makes of it. False: two keys are the same when decoded.
func decode(c *C, n *refjson.Node, text []byte) (interface{}, bool) {
	ok := true
	switch n.Kind {
	case refjson.Obj:
		m := map[string]interface{}{}
		for _, k := range n.Kids {
			var key string
			if err := json.Unmarshal([]byte(`"`+k.Key+`"`), &key); err != nil {
				c.Failf("key %q: %v", k.Key, err)
			}
			if _, dup := m[key]; dup {
				ok = false
			}
			v, o := decode(c, k, text)
			m[key], ok = v, ok && o
		}
		return m, ok
	case refjson.Arr:
		l := []interface{}{}
		for _, k := range n.Kids {
			v, o := decode(c, k, text)
			l, ok = append(l, v), ok && o
		}
		return l, ok
	}
	d := json.NewDecoder(bytes.NewReader([]byte(n.Raw(text))))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		c.Failf("%q: %v", n.Raw(text), err)
	}
	return v, ok
}
