package props

import (
	"errors"
	"fmt"
	"strconv"

	"github.com/ecoshub/jin"

	"jinverif/engine"
	"jinverif/gen"
	"jinverif/refjson"
)

var errStopHere = errors.New("stop here")

// emptyRootOK: an empty root object may be reported as Empty.
func emptyRootOK(c *C, n *refjson.Node, err error, what string) bool {
	if err != nil && n.Parent == nil && n.Kind == refjson.Obj && len(n.Kids) == 0 {
		if k := codeOf(c, err); k != jin.ErrCodeEmpty {
			c.Failf("%s on an empty root object fails with %v", what, err)
		}
		return true
	}
	return false
}

type iterFns struct {
	form string
	arr  func(func([]byte) (bool, error), ...string) error
	kv   func(func([]byte, []byte) (bool, error), ...string) error
}

func iterForms(doc []byte) []iterFns {
	j := jin.New(append([]byte(nil), doc...))
	return []iterFns{
		{"", func(f func([]byte) (bool, error), p ...string) error { return jin.IterateArray(doc, f, p...) },
			func(f func([]byte, []byte) (bool, error), p ...string) error {
				return jin.IterateKeyValue(doc, f, p...)
			}},
		{"JO ", j.IterateArray, j.IterateKeyValue},
	}
}

// stop modes of a callback
const (
	stopNever = iota
	stopFalse
	stopErr
	stopErrTrue
	nStops
)

// iterate runs one iteration stopped at callback number at.
func iterate(it iterFns, n *refjson.Node, mode, at int) (calls [][2]string, err error) {
	answer := func() (bool, error) {
		if len(calls)-1 == at {
			switch mode {
			case stopFalse:
				return false, nil
			case stopErr:
				return false, errStopHere
			case stopErrTrue:
				return true, errStopHere
			}
		}
		return true, nil
	}
	if n.Kind == refjson.Arr {
		err = it.arr(func(v []byte) (bool, error) {
			calls = append(calls, [2]string{strconv.Itoa(len(calls)), string(v)})
			return answer()
		}, n.Path()...)
	} else {
		err = it.kv(func(k, v []byte) (bool, error) {
			calls = append(calls, [2]string{string(k), string(v)})
			return answer()
		}, n.Path()...)
	}
	return
}

func checkIterate(c *C, d *gen.Doc, n *refjson.Node, mode, at int) {
	for _, it := range iterForms(d.Text) {
		p := n.Path()
		if n.Kind != refjson.Arr {
			err := it.arr(func(v []byte) (bool, error) {
				c.Failf("%sIterateArray %q calls back with %q, but it is no array", it.form, p, v)
				return true, nil
			}, p...)
			wantCode(c, err, []int{jin.ErrCodeArrayExpected}, fmt.Sprintf("%sIterateArray %q", it.form, p))
		}
		if n.Kind != refjson.Obj {
			err := it.kv(func(k, v []byte) (bool, error) {
				c.Failf("%sIterateKeyValue %q calls back with %q %q, but it is no object", it.form, p, k, v)
				return true, nil
			}, p...)
			wantCode(c, err, []int{jin.ErrCodeObjectExpected}, fmt.Sprintf("%sIterateKeyValue %q", it.form, p))
		}
		if !n.IsContainer() {
			continue
		}
		what := fmt.Sprintf("%siteration at %q (stop mode %d at %d)", it.form, p, mode, at)
		calls, err := iterate(it, n, mode, at)
		want := len(n.Kids)
		stopped := mode != stopNever && at < want
		if stopped {
			want = at + 1
		}
		if len(calls) != want {
			c.Failf("%s calls back %d times, want %d: %q", what, len(calls), want, calls)
		}
		for i, cb := range calls {
			k := n.Kids[i]
			if cb[0] != k.Label() || cb[1] != k.Text(d.Text) {
				c.Failf("%s: callback %d gets %q, want %q %q", what, i, cb, k.Label(), k.Text(d.Text))
			}
		}
		if stopped && mode != stopFalse {
			if !errors.Is(err, errStopHere) {
				c.Failf("%s returns %v instead of the callback's error", what, err)
			}
		} else if err != nil && !emptyRootOK(c, n, err, what) {
			c.Failf("%s fails: %v", what, err)
		}
	}
}

func checkViews(c *C, d *gen.Doc, nodes []*refjson.Node) {
	j := jin.New(append([]byte(nil), d.Text...))
	for _, n := range nodes {
		p := n.Path()
		var keys, vals []string
		m := map[string]string{}
		for _, k := range n.Kids {
			keys = append(keys, k.Label())
			vals = append(vals, k.Text(d.Text))
			m[k.Label()] = k.Text(d.Text)
		}
		for _, form := range []string{"", "JO "} {
			what := func(f string) string { return fmt.Sprintf("%s%s %q", form, f, p) }
			var gk, gv, gk2, gv2 []string
			var gm map[string]string
			var empty bool
			var e1, e2, e3, e4, e5 error
			if form == "" {
				gk, e1 = jin.GetKeys(d.Text, p...)
				gv, e2 = jin.GetValues(d.Text, p...)
				gk2, gv2, e3 = jin.GetKeysValues(d.Text, p...)
				gm, e4 = jin.GetMap(d.Text, p...)
				empty, e5 = jin.IsEmpty(d.Text, p...)
			} else {
				gk, e1 = j.GetKeys(p...)
				gv, e2 = j.GetValues(p...)
				gk2, gv2, e3 = j.GetKeysValues(p...)
				gm, e4 = j.GetMap(p...)
				empty, e5 = j.IsEmpty(p...)
			}
			if n.Kind != refjson.Obj {
				// never invented entries
				if len(gk)+len(gv)+len(gk2)+len(gv2) > 0 {
					c.Failf("%s gives %q %q %q %q, but it is no object", what("GetKeys etc."), gk, gv, gk2, gv2)
				}
			} else {
				for i, err := range []error{e1, e2, e3} {
					if err != nil && !emptyRootOK(c, n, err, what([]string{"GetKeys", "GetValues", "GetKeysValues"}[i])) {
						c.Failf("%s fails: %v", what([]string{"GetKeys", "GetValues", "GetKeysValues"}[i]), err)
					}
				}
				if !sameStrings(gk, keys) {
					c.Failf("%s = %q, want %q", what("GetKeys"), gk, keys)
				}
				if !sameStrings(gv, vals) {
					c.Failf("%s = %q, want %q", what("GetValues"), gv, vals)
				}
				if !sameStrings(gk2, keys) || !sameStrings(gv2, vals) {
					c.Failf("%s = %q %q, want %q %q", what("GetKeysValues"), gk2, gv2, keys, vals)
				}
			}
			if !n.IsContainer() {
				if e4 == nil && len(gm) > 0 {
					c.Failf("%s = %q for a scalar", what("GetMap"), gm)
				}
				if e5 == nil && empty {
					c.Failf("%s is true for a scalar", what("IsEmpty"))
				}
				continue
			}
			if e4 != nil && !emptyRootOK(c, n, e4, what("GetMap")) {
				c.Failf("%s fails: %v", what("GetMap"), e4)
			}
			if len(m) == len(n.Kids) {
				if len(gm) != len(m) || len(m) > 0 && mapShow(gm) != mapShow(m) {
					c.Failf("%s = %q, want %q", what("GetMap"), gm, m)
				}
			} else {
				// repeated keys: the value of any of them
				left := map[string]bool{}
				for k := range m {
					left[k] = true
				}
				for _, k := range n.Kids {
					if gm[k.Label()] == k.Text(d.Text) {
						delete(left, k.Label())
					}
				}
				if len(left) != 0 || len(gm) != len(m) {
					c.Failf("%s = %q at %s", what("GetMap"), gm, clipS(n.Raw(d.Text)))
				}
			}
			if e5 != nil || empty != (len(n.Kids) == 0) {
				c.Failf("%s = %v, %v with %d entries", what("IsEmpty"), empty, e5, len(n.Kids))
			}
		}
		if n.IsContainer() {
			l, err := jin.Length(d.Text, p...)
			if err != nil || l != len(n.Kids) {
				c.Failf("Length %q = %d, %v, want %d", p, l, err, len(n.Kids))
			}
		}
	}
}

func checkTypes(c *C, d *gen.Doc, nodes []*refjson.Node) {
	j := jin.New(append([]byte(nil), d.Text...))
	for _, n := range nodes {
		p := n.Path()
		for _, form := range []string{"", "JO "} {
			var t string
			var o, a, v bool
			var e0, e1, e2, e3 error
			if form == "" {
				t, e0 = jin.GetType(d.Text, p...)
				o, e1 = jin.IsObject(d.Text, p...)
				a, e2 = jin.IsArray(d.Text, p...)
				v, e3 = jin.IsValue(d.Text, p...)
			} else {
				t, e0 = j.GetType(p...)
				o, e1 = j.IsObject(p...)
				a, e2 = j.IsArray(p...)
				v, e3 = j.IsValue(p...)
			}
			if e0 != nil || e1 != nil || e2 != nil || e3 != nil {
				c.Failf("%stype queries at %q fail: %v %v %v %v", form, p, e0, e1, e2, e3)
			}
			if t != n.Kind.String() {
				c.Failf("%sGetType %q = %s, want %s (%s)", form, p, t, n.Kind, clipS(n.Raw(d.Text)))
			}
			if o != (n.Kind == refjson.Obj) || a != (n.Kind == refjson.Arr) || v != !n.IsContainer() {
				c.Failf("%sIsObject, IsArray, IsValue %q = %v, %v, %v for %s", form, p, o, a, v, n.Kind)
			}
		}
	}
}

type leafCall struct {
	k, v string
	p    []string
}

// leaves are the calls a Walk must make, in order.
func leaves(d *gen.Doc) []leafCall {
	var out []leafCall
	for _, n := range d.Root.All() {
		if !n.IsContainer() {
			l := ""
			if n.Parent != nil {
				l = n.Label()
			}
			out = append(out, leafCall{l, n.Text(d.Text), n.Path()})
		}
	}
	return out
}

func checkWalk(c *C, d *gen.Doc, want []leafCall, mode, at int) {
	j := jin.New(append([]byte(nil), d.Text...))
	for i, walk := range []func(func(string, []byte, []string) (bool, error)) error{
		func(f func(string, []byte, []string) (bool, error)) error { return jin.Walk(d.Text, f) }, j.Walk} {
		what := fmt.Sprintf("%sWalk (stop mode %d at %d)", []string{"", "JO "}[i], mode, at)
		var got []leafCall
		err := walk(func(k string, v []byte, p []string) (bool, error) {
			got = append(got, leafCall{k, string(v), append([]string(nil), p...)})
			if len(got)-1 == at {
				switch mode {
				case stopFalse:
					return false, nil
				case stopErr:
					return false, errStopHere
				case stopErrTrue:
					return true, errStopHere
				}
			}
			return true, nil
		})
		n := len(want)
		stopped := mode != stopNever && at < n
		if stopped {
			n = at + 1
		}
		if len(got) != n {
			c.Failf("%s makes %d calls, want %d: %v", what, len(got), n, got)
		}
		for i, g := range got {
			w := want[i]
			if g.k != w.k || g.v != w.v || !sameStrings(g.p, w.p) {
				c.Failf("%s: call %d is %q %q %q, want %q %q %q", what, i, g.k, g.v, g.p, w.k, w.v, w.p)
			}
		}
		if stopped && mode != stopFalse {
			if !errors.Is(err, errStopHere) {
				c.Failf("%s returns %v instead of the callback's error", what, err)
			}
		} else if err != nil && !emptyRootOK(c, d.Root, err, what) {
			c.Failf("%s fails: %v", what, err)
		}
	}
}

func init() {
	register(&engine.Prop{ID: "C16",
		Rule: "a random document, every value or a sample, the callback going on or stopping with false or an error at a drawn position (in the exhaustive part: at every position); calls, order, values and the returned error against the reference tree, free and JO. Part repeated: documents with repeated keys, at the values that no earlier member hides. Non-trivial: a container of 2 or more was iterated; in repeated: a key is repeated.",
		Parts: []engine.Part{
			{Name: "random", Quick: 40000, Thorough: 1500000, Run: func(c *C) {
				d := gen.RandomDoc(c)
				all := docCase(c, d)
				for _, n := range sampleNodes(c, all, 15) {
					mode, at := c.N(nStops), 0
					if mode != stopNever {
						at = c.N(len(n.Kids) + 1)
					}
					if len(n.Kids) > 1 {
						c.NonTrivial()
					}
					checkIterate(c, d, n, mode, at)
				}
			}},
			{Name: "repeated", Quick: 20000, Thorough: 600000, Run: func(c *C) {
				d, nodes := gen.DupDoc(c)
				docCase(c, d)
				if len(nodes) < len(d.Root.All()) {
					c.NonTrivial()
				}
				for _, n := range sampleNodes(c, nodes, 15) {
					mode, at := c.N(nStops), 0
					if mode != stopNever {
						at = c.N(len(n.Kids) + 1)
					}
					checkIterate(c, d, n, mode, at)
				}
			}},
			{Name: "small", Exhaustive: true, Quick: 60000, Thorough: 3000000, Run: func(c *C) {
				d := tinyArgs(c)
				all := docCase(c, d)
				for _, n := range all {
					if len(n.Kids) > 1 {
						c.NonTrivial()
					}
					checkIterate(c, d, n, stopNever, 0)
					for at := range n.Kids {
						for mode := stopFalse; mode < nStops; mode++ {
							checkIterate(c, d, n, mode, at)
						}
					}
				}
			}},
		}})
	register(&engine.Prop{ID: "C17",
		Rule: "a random document; GetKeys, GetValues, GetKeysValues, GetMap, IsEmpty (free and JO) and Length at every value or a sample against the reference tree. Part repeated: documents with repeated keys, at the values that no earlier member hides. Non-trivial: 3 values or more besides the root; in repeated: a key is repeated.",
		Parts: []engine.Part{
			{Name: "random", Quick: 50000, Thorough: 1500000, Run: func(c *C) {
				d := gen.RandomDoc(c)
				all := docCase(c, d)
				if len(all) > 3 {
					c.NonTrivial()
				}
				checkViews(c, d, sampleNodes(c, all, 20))
			}},
			{Name: "repeated", Quick: 20000, Thorough: 600000, Run: func(c *C) {
				d, nodes := gen.DupDoc(c)
				docCase(c, d)
				if len(nodes) < len(d.Root.All()) {
					c.NonTrivial()
				}
				checkViews(c, d, sampleNodes(c, nodes, 20))
			}},
			{Name: "small", Exhaustive: true, Quick: 60000, Thorough: 3000000, Run: func(c *C) {
				d := tinyArgs(c)
				all := docCase(c, d)
				if len(all) > 3 {
					c.NonTrivial()
				}
				checkViews(c, d, all)
			}},
		}})
	register(&engine.Prop{ID: "C18",
		Rule: "a random document; GetType, IsObject, IsArray and IsValue (free and JO) at every value or a sample, and at a value replaced by a look-alike text, against the reference tree. Non-trivial: 3 values or more besides the root.",
		Parts: []engine.Part{
			{Name: "random", Quick: 60000, Thorough: 2000000, Run: func(c *C) {
				d := gen.RandomDoc(c)
				all := docCase(c, d)
				if len(all) > 3 {
					c.NonTrivial()
				}
				checkTypes(c, d, sampleNodes(c, all, 30))
			}},
			{Name: "lookalikes", Quick: 40000, Thorough: 1500000, Run: func(c *C) {
				d := gen.SmallDoc(c)
				n := gen.PickNode(c, d.Root.All(), gen.NotRoot)
				if n == nil {
					c.Discard()
				}
				s := drawScalarText(c)
				if c.N(3) == 2 {
					if t := `"` + s + `"`; refjson.IsStringContent(s) {
						s = t
					}
				}
				d, n = replaceNode(d, n, s)
				c.Note("%s at %q", d.Text, n.Path())
				c.Label(n.Kind.String())
				if len(d.Root.All()) > 3 {
					c.NonTrivial()
				}
				checkTypes(c, d, []*refjson.Node{n, n.Parent})
			}},
		}})
	register(&engine.Prop{ID: "C19",
		Rule: "a random document walked to the end, and stopped with false or an error at a drawn leaf (exhaustive part: at every leaf); calls with key, value and path against the reference tree's leaves, free and JO. Non-trivial: 2 leaves or more.",
		Parts: []engine.Part{
			{Name: "random", Quick: 40000, Thorough: 1500000, Run: func(c *C) {
				cfg := gen.RandomConfig(c)
				if cfg.Budget > 60 {
					cfg.Budget = 60
				}
				d := gen.DocOf(c, cfg, -1)
				all := docCase(c, d)
				want := leaves(d)
				if len(want) > 1 {
					c.NonTrivial()
				}
				for _, n := range all {
					if n.IsContainer() && len(n.Kids) == 0 && n.Parent != nil && n.Parent.Kids[len(n.Parent.Kids)-1] != n {
						c.Label("empty container before others")
						break
					}
				}
				checkWalk(c, d, want, stopNever, 0)
				if len(want) > 0 {
					checkWalk(c, d, want, 1+c.N(nStops-1), c.N(len(want)))
				}
			}},
			{Name: "small", Exhaustive: true, Quick: 60000, Thorough: 3000000, Run: func(c *C) {
				d := tinyArgs(c)
				docCase(c, d)
				want := leaves(d)
				if len(want) > 1 {
					c.NonTrivial()
				}
				checkWalk(c, d, want, stopNever, 0)
				for at := range want {
					for mode := stopFalse; mode < nStops; mode++ {
						checkWalk(c, d, want, mode, at)
					}
				}
			}},
		}})
}
