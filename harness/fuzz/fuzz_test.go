// Package fuzz drives the parts of a property with Go's coverage-guided fuzzer:
// the input's bytes are the choices of a generator (see engine.NewBytes).
package fuzz

import (
	"fmt"
	"os"
	"runtime/debug"
	"testing"

	"jinverif/engine"
	"jinverif/props"
)

func FuzzProp(f *testing.F) {
	p := props.Find(os.Getenv("VERIF_PROP"))
	if p == nil {
		f.Skip("VERIF_PROP names no property")
	}
	debug.SetMaxStack(64 << 20)
	for i := 0; i < 24*len(p.Parts); i++ {
		// seeds that make a document each: the generator's random choices
		b := []byte{byte(i % len(p.Parts))}
		for x := uint64(i) + 1; len(b) < 1+(i%5)*80; x++ {
			b = append(b, byte(engine.Mix64(x*0x9e3779b97f4a7c15)))
		}
		f.Add(b)
	}
	f.Fuzz(func(t *testing.T, b []byte) {
		if r, _ := props.RunBytes(p, b); r.Failed {
			keep(b)
			t.Fatal(r.Msg)
		}
	})
}

// keep writes a failing input in the format of Go's fuzzer, which writes none
// when it is one of the seeds that fails.
func keep(b []byte) {
	h := uint64(len(b))
	for _, x := range b {
		h = engine.Mix64(h ^ uint64(x))
	}
	os.MkdirAll("failing", 0o755)
	os.WriteFile(fmt.Sprintf("failing/%016x", h), []byte(fmt.Sprintf("go test fuzz v1\n[]byte(%q)\n", b)), 0o644)
}
