// Package engine is a small property-based testing engine.
//
// Every random decision of a generator is one recorded choice (a number below a
// bound). A case is therefore a pure function of its choice sequence, which makes
// replaying, shrinking (by editing the sequence) and exhaustive enumeration (by
// counting through the sequences) work on any generator without extra code.
// By convention choice 0 is always the simplest alternative.
package engine

// Span is the range [B, E) of choices that made one part. Ctr is the choice that
// counted the part among its siblings, or -1.
type Span struct{ B, E, Ctr int }

// Src supplies choices to generators and records them.
type Src struct {
	state  uint64   // splitmix64 state, used when not replaying
	replay []uint64 // forced choices
	bytes  []byte   // choices by byte, in fuzz mode
	fuzz   bool     // fuzz mode: after the bytes every choice is 0
	forced bool     // replay mode: after the forced prefix every choice is 0
	rec    []uint64 // choices made
	bounds []uint64 // bound of each choice
	spans  []Span   // recorded generator parts, for shrinking
	open   []Span
	limit  int // maximum number of choices; 0 = none
}

// NewSrc returns a random source.
func NewSrc(seed uint64) *Src { return &Src{state: seed} }

// NewReplay returns a source that replays the given choices, then zeros.
func NewReplay(choices []uint64) *Src { return &Src{replay: choices, forced: true} }

// NewBytes returns a source that makes its choices from a fuzzer's input: one
// byte each, or as many as the bound takes.
func NewBytes(b []byte) *Src { return &Src{bytes: b, fuzz: true} }

func (s *Src) take(n uint64) uint64 {
	var v uint64
	for m := n - 1; ; m >>= 8 { // n = 0 takes eight
		if len(s.bytes) > 0 {
			v = v<<8 | uint64(s.bytes[0])
			s.bytes = s.bytes[1:]
		}
		if m < 256 {
			break
		}
	}
	if n != 0 {
		v %= n
	}
	return v
}

// Mix64 is the splitmix64 finaliser.
func Mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (s *Src) next() uint64 {
	s.state += 0x9e3779b97f4a7c15
	return Mix64(s.state)
}

// N draws a number in [0, n); n must be at least 1.
func (s *Src) N(n int) int { return int(s.U(uint64(n))) }

// U draws a number in [0, n) (n = 0 means the full 64-bit range).
func (s *Src) U(n uint64) uint64 {
	var v uint64
	i := len(s.rec)
	switch {
	case s.forced:
		if i < len(s.replay) {
			v = s.replay[i]
		}
		if n != 0 && v >= n {
			v = n - 1
		}
	case s.fuzz:
		v = s.take(n)
	case n == 0:
		v = s.next()
	default:
		v = s.next() % n
	}
	s.rec = append(s.rec, v)
	s.bounds = append(s.bounds, n)
	return v
}

// Range draws a number in [lo, hi].
func (s *Src) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// Pct is true with probability p percent; false is the simple outcome.
func (s *Src) Pct(p int) bool { return s.N(100) >= 100-p }

// Weighted draws an index with the given weights; index 0 is the simplest.
func (s *Src) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := s.N(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// Size draws a length in [0, max], favouring small ones but reaching max.
func (s *Src) Size(max int) int {
	if max <= 0 {
		return 0
	}
	switch s.Weighted(60, 30, 10) {
	case 0:
		m := 4
		if m > max {
			m = max
		}
		return s.N(m + 1)
	case 1:
		m := 4 + (max-4)/4
		if m > max || m < 0 {
			m = max
		}
		return s.N(m + 1)
	}
	return s.N(max + 1)
}

// Mark is the index of the choice drawn last.
func (s *Src) Mark() int { return len(s.rec) - 1 }

// Begin and End mark the choices of one generated part.
func (s *Src) Begin() { s.BeginItem(-1) }

// BeginItem is Begin for an element of a list whose length was the choice ctr.
func (s *Src) BeginItem(ctr int) { s.open = append(s.open, Span{len(s.rec), 0, ctr}) }

// End closes the innermost open part.
func (s *Src) End() {
	n := len(s.open) - 1
	b := s.open[n]
	s.open = s.open[:n]
	if len(s.rec) > b.B {
		b.E = len(s.rec)
		s.spans = append(s.spans, b)
	}
}
