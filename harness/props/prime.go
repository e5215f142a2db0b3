package props

import (
	"github.com/ecoshub/jin"

	"jinverif/gen"
	"jinverif/refjson"
)

// prime makes calls on another text of the same length in the document's own
// buffer before the case proper, which must not be able to tell: a result may
// depend on the text only, not on where it lies or what lay there before.
func prime(c *C, d *gen.Doc, all []*refjson.Node) {
	if d.Tiny || !d.Root.IsContainer() || len(d.Text) > 4096 || c.N(8) != 7 {
		return
	}
	c.Begin()
	defer c.End()
	decoy := d.Text
	same := c.N(2) == 1
	if same { // the document itself, elsewhere; what the calls give is written over
		c.Label("results written over before")
	} else {
		decoy = gen.Decoy(c, d)
		c.Label("buffer used before")
	}
	buf := append(make([]byte, 0, len(decoy)+c.N(3)*4), decoy...)
	wipe := func(b []byte) {
		if same {
			deface(b)
			copy(buf, d.Text)
		}
	}
	ctr := c.Mark()
	for i := c.Range(1, 4); i > 0; i-- {
		c.BeginItem(ctr)
		n := all[c.N(len(all))]
		p := n.Path()
		if c.N(6) == 5 {
			p, _ = gen.MissingPath(c, d, all)
		}
		v, _ := jin.Get(buf, p...)
		wipe(v)
		for k := 0; k < 3; k++ {
			r := reads[c.N(len(reads))]
			r.Free(buf, p)
		}
		switch c.N(8) {
		case 0:
			mode, at := c.N(4), c.N(3)
			broken(buf, p, mode, at)
			c.LabelIf(mode == 3, "callback panicked before")
		case 1:
			wipe(jin.Flatten(buf))
			wipe(jin.Indent(buf))
		case 2:
			if pr, err := jin.Parse(buf); err == nil {
				pr.Tree()
				v, _ := pr.Get(p...)
				wipe(pr.GetNew(p...))
				wipe(v)
			}
		case 3:
			j := jin.New(buf)
			j.GetInt(p...)
			v, _ := j.Get(p...)
			wipe(v)
		case 4:
			keys, _ := jin.GetKeys(buf, p...)
			s := jin.MakeScheme(keys...)
			s.Check(buf)
			s.CheckAbs(buf)
			m, _ := s.MutateJson(buf)
			wipe(m)
		case 5:
			own(jin.ParseArray(string(buf)))
		default:
			e := edits[c.N(len(edits))]
			a := drawEdit(c, d, e, 10)
			if c.N(2) == 0 {
				a.Path = p
			}
			out, _ := e.Free(buf, a)
			wipe(out)
		}
		c.End()
	}
	if same {
		return
	}
	copy(buf, d.Text)
	d.Text = buf
}

// broken makes iterations whose callback goes on, stops, fails or panics.
func broken(buf []byte, p []string, mode, at int) {
	end := func(n *int) (bool, error) {
		*n++
		if *n > at {
			switch mode {
			case 1:
				return false, nil
			case 2:
				return true, errStopHere
			case 3:
				panic(errStopHere)
			}
		}
		return true, nil
	}
	for k := 0; k < 4; k++ {
		func() {
			defer func() {
				if r := recover(); r != nil && r != errStopHere {
					panic(r)
				}
			}()
			n := 0
			j := jin.New(buf)
			value := func([]byte) (bool, error) { return end(&n) }
			member := func([]byte, []byte) (bool, error) { return end(&n) }
			leaf := func(string, []byte, []string) (bool, error) { return end(&n) }
			switch k {
			case 0:
				jin.Walk(buf, leaf)
			case 1:
				j.Walk(leaf)
			case 2:
				jin.IterateArray(buf, value, p...)
				jin.IterateKeyValue(buf, member, p...)
			case 3:
				j.IterateArray(value, p...)
				j.IterateKeyValue(member, p...)
			}
		}()
	}
}
