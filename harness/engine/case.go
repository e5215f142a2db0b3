package engine

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
)

// Case is one run of a property.
type Case struct {
	*Src
	Tier       string
	nontrivial bool
	discarded  bool
	labels     []string
	desc       []string
	checks     int
	Giant      int // the first document drawn is a giant one, of this size
	GiantVal   int // or the first value drawn for an edit
}

type failure struct{ msg string }
type discard struct{}

// Failf reports that the property does not hold for this case.
func (c *Case) Failf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Discard drops the case (counted).
func (c *Case) Discard() { panic(discard{}) }

// NonTrivial marks the case as non-trivial by the property's rule.
func (c *Case) NonTrivial() { c.nontrivial = true }

// Label counts the case under a class.
func (c *Case) Label(l string) { c.labels = append(c.labels, l) }

// Labelf counts the case under a class when cond holds.
func (c *Case) LabelIf(cond bool, l string) {
	if cond {
		c.labels = append(c.labels, l)
	}
}

// Note adds a line to the case's description (its identity and its sample text).
func (c *Case) Note(format string, a ...interface{}) {
	c.desc = append(c.desc, fmt.Sprintf(format, a...))
}

// Desc is the description of the case so far.
func (c *Case) Desc() string { return strings.Join(c.desc, " | ") }

// Result is the outcome of one case.
type Result struct {
	Failed     bool
	Panicked   bool
	Msg        string
	Stack      string
	Desc       string
	NonTrivial bool
	Discarded  bool
	Labels     []string
	Choices    []uint64
	Bounds     []uint64
	Spans      []Span
	Index      int // of the case in its part
}

// RunCase runs one case to its result, converting panics into failures.
func RunCase(tier string, src *Src, f func(*Case)) (r Result) {
	c := &Case{Src: src, Tier: tier}
	defer func() {
		if e := recover(); e != nil {
			switch v := e.(type) {
			case failure:
				r.Failed, r.Msg = true, v.msg
			case discard:
				r.Discarded = true
			default:
				r.Failed, r.Panicked = true, true
				r.Msg = fmt.Sprintf("panic: %v", e)
				if strings.Contains(r.Msg, "harness error") {
					fmt.Fprintf(os.Stderr, "%s\ncase: %s\n%s\n", r.Msg, c.Desc(), debug.Stack())
					os.Exit(2)
				}
				r.Stack = string(debug.Stack())
			}
		}
		r.Desc, r.NonTrivial, r.Labels = c.Desc(), c.nontrivial, c.labels
		r.Choices, r.Bounds, r.Spans = src.rec, src.bounds, src.spans
	}()
	f(c)
	return
}
