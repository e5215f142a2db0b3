package props

// A result is the caller's: it may be written over and appended to, and no
// later call may show that.

// deface writes over a text and the room behind it.
func deface(b []byte) {
	if b == nil {
		return
	}
	end := cap(b)
	if end > len(b)+64 {
		end = len(b) + 64
	}
	b = b[:end]
	for i := range b {
		b[i] = '!'
	}
}

func spare(v interface{}) {
	switch x := v.(type) {
	case []string:
		for i := range x[len(x):cap(x)] {
			x[len(x):cap(x)][i] = "defaced"
		}
	case []int:
		for i := range x[len(x):cap(x)] {
			x[len(x):cap(x)][i] = -99
		}
	case []float64:
		for i := range x[len(x):cap(x)] {
			x[len(x):cap(x)][i] = -99
		}
	case []bool:
		for i := range x[len(x):cap(x)] {
			x[len(x):cap(x)][i] = i&1 == 0
		}
	}
}

// own renders list results and then writes over them.
func own(vs ...interface{}) string {
	for _, v := range vs {
		spare(v)
	}
	s := ""
	for _, v := range vs {
		s += show(v)
	}
	for _, v := range vs {
		switch x := v.(type) {
		case []string:
			for i := range x {
				x[i] = "defaced"
			}
		case []int:
			for i := range x {
				x[i] = -99
			}
		case []float64:
			for i := range x {
				x[i] = -99
			}
		case []bool:
			for i := range x {
				x[i] = !x[i]
			}
		}
	}
	return s
}

// mapOwn is own for maps.
func mapOwn(m map[string]string) string {
	s := mapShow(m)
	for k := range m {
		m[k] = "defaced"
	}
	return s
}
