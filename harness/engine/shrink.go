package engine

// Shrink minimises a failing choice sequence: fewer choices first, then smaller
// ones. try reports whether the candidate still fails and returns its result.
func Shrink(start Result, budget int, try func([]uint64) Result) Result {
	best := start
	left := budget
	attempt := func(cand []uint64) bool {
		if left <= 0 {
			return false
		}
		left--
		r := try(cand)
		if !r.Failed {
			return false
		}
		if !simpler(r.Choices, best.Choices) {
			return false
		}
		best = r
		return true
	}
	for improved := true; improved && left > 0; {
		improved = false
		// remove whole generator parts, largest first
		for again := true; again && left > 0; {
			again = false
			spans := append([]Span(nil), best.Spans...)
			sortSpans(spans)
			for _, sp := range spans {
				if sp.E > len(best.Choices) {
					continue
				}
				if sp.Ctr >= 0 && best.Choices[sp.Ctr] > 0 {
					c := cut(best.Choices, sp.B, sp.E)
					c[sp.Ctr]--
					if attempt(c) {
						improved, again = true, true
						break
					}
				}
				if attempt(cut(best.Choices, sp.B, sp.E)) {
					improved, again = true, true
					break
				}
				if sp.B > 0 && best.Choices[sp.B-1] > 0 {
					c := cut(best.Choices, sp.B, sp.E)
					c[sp.B-1]--
					if attempt(c) {
						improved, again = true, true
						break
					}
				}
				// hoist a contained part
				done := false
				for _, in := range spans {
					if in.B > sp.B && in.E <= sp.E {
						c := append([]uint64(nil), best.Choices[:sp.B]...)
						c = append(c, best.Choices[in.B:in.E]...)
						c = append(c, best.Choices[sp.E:]...)
						if attempt(c) {
							improved, again, done = true, true, true
							break
						}
					}
				}
				if done {
					break
				}
			}
		}
		for _, n := range []int{64, 32, 16, 8, 4, 3, 2, 1} {
			for i := len(best.Choices) - n; i >= 0 && left > 0; i-- {
				if i+n > len(best.Choices) {
					continue
				}
				if attempt(cut(best.Choices, i, i+n)) {
					improved = true
					continue
				}
				if i > 0 && best.Choices[i-1] > 0 {
					c := cut(best.Choices, i, i+n)
					c[i-1]--
					if attempt(c) {
						improved = true
					}
				}
			}
		}
		for i := 0; i < len(best.Choices) && left > 0; i++ {
			v := best.Choices[i]
			if v == 0 {
				continue
			}
			if attempt(with(best.Choices, i, 0)) {
				improved = true
				continue
			}
			lo, hi := uint64(0), v // lo fails to fail, hi fails
			for hi-lo > 1 && left > 0 && i < len(best.Choices) {
				mid := lo + (hi-lo)/2
				if attempt(with(best.Choices, i, mid)) {
					hi = mid
					improved = true
				} else {
					lo = mid
				}
			}
			// small values one by one (classes are not monotone)
			if i < len(best.Choices) {
				for x := uint64(1); x < best.Choices[i] && x < 24 && left > 0; x++ {
					if attempt(with(best.Choices, i, x)) {
						improved = true
						break
					}
				}
			}
		}
	}
	return best
}

func simpler(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func cut(c []uint64, i, j int) []uint64 {
	r := make([]uint64, 0, len(c))
	r = append(r, c[:i]...)
	return append(r, c[j:]...)
}

func with(c []uint64, i int, v uint64) []uint64 {
	r := append([]uint64(nil), c...)
	r[i] = v
	return r
}

func sortSpans(s []Span) {
	// insertion sort by decreasing length (few spans)
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j].E-s[j].B > s[j-1].E-s[j-1].B; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	if len(s) > 400 {
		copy(s[200:], s[len(s)-200:])
	}
}
