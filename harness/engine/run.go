package engine

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// Part is one generated check of a property.
type Part struct {
	Name string
	Run  func(*Case)
	// Quick and Thorough are case counts; for an exhaustive part they are caps.
	Quick, Thorough int
	// Exhaustive enumerates every choice sequence of Run instead of sampling.
	Exhaustive bool
	// Serial runs the part in a single worker (the case starts its own goroutines).
	Serial bool
	// Heavy parts, which come last, are left out of coverage-guided fuzzing.
	Heavy bool
	// Fresh runs each case in a new process, where nothing has been called before.
	Fresh bool
}

// Prop is one property with its checks.
type Prop struct {
	ID    string
	Rule  string // how cases are made and what makes one non-trivial
	Race  bool   // wants the race-detector build
	Parts []Part
}

// Replay is the content of a replay file.
type Replay struct {
	Property string   `json:"property"`
	Part     string   `json:"part"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`                // VERIF_SEED of the run
	CaseSeed uint64   `json:"case_seed,omitempty"` // used when choices are absent
	Choices  []uint64 `json:"choices,omitempty"`
	Bytes    []byte   `json:"bytes,omitempty"` // a fuzzer's input
	// Before is set when the failure needs the cases that ran before it: the
	// replay runs cases At-Before to At of the part, one after another.
	Before  int    `json:"before,omitempty"`
	Once    bool   `json:"once,omitempty"` // run in this very process, one time
	At      int    `json:"at,omitempty"`
	Message string `json:"message"`
	Case    string `json:"case,omitempty"`
	Stack   string `json:"stack,omitempty"`
}

type partStats struct {
	Name        string         `json:"name"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"distinct_nontrivial"`
	Distinct    int            `json:"distinct"`
	Discarded   int            `json:"discarded"`
	Exhaustive  bool           `json:"exhaustive,omitempty"`
	Labels      map[string]int `json:"classes"`
	WallS       float64        `json:"wall_s"`
	SlowestMS   float64        `json:"slowest_case_ms"`
	slowSeed    uint64
	samples     []string
}

// Options of a run.
type Options struct {
	Tier      string
	Seed      uint64
	Workers   int
	Scale     float64 // multiplies case counts (for experiments)
	OnlyPart  string
	ReplayDir string
	Evidence  string // evidence file, "" = none
	Level     string
	Slots     *Slots
	Fresh     func(replay string) int // replays a file in a fresh process; the exit code
}

func hashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// CaseSeed derives the seed of case i of a part.
func CaseSeed(seed uint64, prop, part string, i int) uint64 {
	return Mix64(Mix64(seed^0x5bd1e995)^hashString(prop+"/"+part)) ^ Mix64(uint64(i)*0x9e3779b97f4a7c15+1)
}

type workerStats struct {
	evals, disc int
	slow        time.Duration
	slowSeed    uint64
	nontriv     map[uint64]struct{}
	distinct    map[uint64]struct{}
	labels      map[string]int
}

func (w *workerStats) add(r *Result) {
	w.evals++
	if r.Discarded {
		w.disc++
		return
	}
	h := hashString(r.Desc)
	w.distinct[h] = struct{}{}
	if r.NonTrivial {
		w.nontriv[h] = struct{}{}
	}
	for _, l := range r.Labels {
		w.labels[l]++
	}
}

// RunProp runs all parts of a property. It returns the process exit code.
func RunProp(p *Prop, o Options) int {
	start := time.Now()
	var stats []*partStats
	violations := 0
	var replay string
	for i := range p.Parts {
		part := &p.Parts[i]
		if o.OnlyPart != "" && part.Name != o.OnlyPart {
			continue
		}
		st, fail := runPart(p, i, o)
		stats = append(stats, st)
		if fail != nil {
			violations++
			replay = reportFailure(p, i, o, fail)
			break
		}
	}
	if o.Evidence != "" {
		if err := writeEvidence(p, o, stats, violations, time.Since(start)); err != nil {
			fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
			return 2
		}
	}
	for _, s := range stats {
		fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %.1fs, slowest case %.0f ms (%#x)\n", p.ID, s.Name, s.Evaluations, s.NonTrivial, s.WallS, s.SlowestMS, s.slowSeed)
	}
	if violations > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replay)
		return 1
	}
	return 0
}

func runPart(p *Prop, idx int, o Options) (*partStats, *Result) {
	part := &p.Parts[idx]
	start := time.Now()
	n := part.Quick
	if o.Tier == "thorough" {
		n = part.Thorough
	}
	if o.Scale > 0 && !part.Exhaustive {
		n = int(float64(n)*o.Scale) + 1
	}
	workers := o.Workers
	if part.Serial {
		workers = 1
	}
	ws := make([]*workerStats, workers)
	for i := range ws {
		ws[i] = &workerStats{nontriv: map[uint64]struct{}{}, distinct: map[uint64]struct{}{}, labels: map[string]int{}}
	}
	st := &partStats{Name: part.Name, Labels: map[string]int{}}
	var mu sync.Mutex
	var first *Result
	samples := map[int]string{}
	var wg sync.WaitGroup
	if !part.Exhaustive {
		var nextIdx int64 = -1
		failIdx := int64(1) << 62
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				slot := o.Slots.Bind(w)
				defer slot.Release()
				for {
					i := atomic.AddInt64(&nextIdx, 1)
					if i >= int64(n) || i > atomic.LoadInt64(&failIdx) {
						return
					}
					seed := CaseSeed(o.Seed, p.ID, part.Name, int(i))
					slot.EnterSeed(idx, seed)
					t0 := time.Now()
					var r Result
					if part.Fresh {
						r = runFresh(p, part, o, seed)
					} else {
						r = RunCase(o.Tier, NewSrc(seed), part.Run)
					}
					if d := time.Since(t0); d > ws[w].slow {
						ws[w].slow, ws[w].slowSeed = d, seed
					}
					slot.Leave()
					ws[w].add(&r)
					if r.Failed {
						mu.Lock()
						if i < failIdx {
							rr := r
							rr.Index = int(i)
							first = &rr
							atomic.StoreInt64(&failIdx, i)
						}
						mu.Unlock()
					} else if i < 4000 && r.NonTrivial && i%37 == 5 {
						mu.Lock()
						if len(samples) < 200 {
							samples[int(i)] = clip(r.Desc, 700)
						}
						mu.Unlock()
					}
				}
			}(w)
		}
		wg.Wait()
	} else {
		exhausted := enumerate(part, idx, o, n, workers, ws, &first, samples, &mu)
		st.Exhaustive = exhausted
	}
	for _, w := range ws {
		st.Evaluations += w.evals
		st.Discarded += w.disc
		if ms := float64(w.slow.Microseconds()) / 1000; ms > st.SlowestMS {
			st.SlowestMS, st.slowSeed = ms, w.slowSeed
		}
		for l, k := range w.labels {
			st.Labels[l] += k
		}
	}
	nt, di := map[uint64]struct{}{}, map[uint64]struct{}{}
	for _, w := range ws {
		for h := range w.nontriv {
			nt[h] = struct{}{}
		}
		for h := range w.distinct {
			di[h] = struct{}{}
		}
	}
	st.NonTrivial, st.Distinct = len(nt), len(di)
	st.WallS = time.Since(start).Seconds()
	keys := make([]int, 0, len(samples))
	for k := range samples {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	for _, k := range keys {
		if len(st.samples) < 4 {
			st.samples = append(st.samples, part.Name+": "+samples[k])
		}
	}
	return st, first
}

// runFresh runs a case in a new process, and then here for its description.
func runFresh(p *Prop, part *Part, o Options, seed uint64) Result {
	r := &Replay{Property: p.ID, Part: part.Name, Tier: o.Tier, Seed: o.Seed, CaseSeed: seed, Once: true}
	name := WriteReplay(os.TempDir(), r)
	code := 0
	if o.Fresh != nil {
		code = o.Fresh(name)
	}
	os.Remove(name)
	res := RunCase(o.Tier, NewSrc(seed), part.Run)
	if code == 1 && !res.Failed {
		res.Failed, res.Msg = true, "fails in a new process (a data race or a wrong result in the first calls made)"
	}
	return res
}

// enumerate runs every choice sequence of the part (up to cap), in parallel over
// prefixes. It reports whether the space was enumerated completely.
func enumerate(part *Part, idx int, o Options, cap, workers int, ws []*workerStats, first **Result, samples map[int]string, mu *sync.Mutex) bool {
	// phase 1: prefixes of growing depth until there are enough of them
	type prefix []uint64
	prefixes := []prefix{{}}
	slot0 := o.Slots.Bind(0)
	for depth := 1; depth <= 6 && len(prefixes) < 64; depth++ {
		var next []prefix
		for _, pf := range prefixes {
			if len(pf) < depth-1 {
				next = append(next, pf) // already a complete sequence
				continue
			}
			slot0.EnterChoices(idx, pf)
			r := RunCase(o.Tier, NewReplay(pf), part.Run)
			slot0.Leave()
			if len(r.Bounds) < depth {
				next = append(next, append(prefix(nil), r.Choices...))
				continue
			}
			b := r.Bounds[depth-1]
			for v := uint64(0); v < b; v++ {
				q := append(prefix(nil), r.Choices[:depth-1]...)
				next = append(next, append(q, v))
			}
		}
		prefixes = next
	}
	slot0.Release()
	var taken int64 = -1
	var count int64
	var stop int32
	complete := int32(1)
	failAt := len(prefixes)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			slot := o.Slots.Bind(w)
			defer slot.Release()
			for {
				k := int(atomic.AddInt64(&taken, 1))
				if k >= len(prefixes) || atomic.LoadInt32(&stop) != 0 {
					return
				}
				base := len(prefixes[k])
				cur := append([]uint64(nil), prefixes[k]...)
				for {
					if atomic.AddInt64(&count, 1) > int64(cap) {
						atomic.StoreInt32(&complete, 0)
						atomic.StoreInt32(&stop, 1)
						return
					}
					slot.EnterChoices(idx, cur)
					r := RunCase(o.Tier, NewReplay(cur), part.Run)
					slot.Leave()
					ws[w].add(&r)
					if r.Failed {
						mu.Lock()
						if k < failAt {
							failAt = k
							rr := r
							*first = &rr
						}
						mu.Unlock()
						atomic.StoreInt32(&stop, 1)
						break
					} else if r.NonTrivial && ws[w].evals%97 == 3 {
						mu.Lock()
						if len(samples) < 64 {
							samples[k*100000+ws[w].evals] = clip(r.Desc, 700)
						}
						mu.Unlock()
					}
					// next sequence
					i := len(r.Choices) - 1
					for i >= base && r.Choices[i]+1 >= r.Bounds[i] {
						i--
					}
					if i < base {
						break
					}
					cur = append(append([]uint64(nil), r.Choices[:i]...), r.Choices[i]+1)
				}
			}
		}(w)
	}
	wg.Wait()
	return complete == 1 && atomic.LoadInt32(&stop) == 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// Report shrinks a failing case, writes its replay and returns the file.
func Report(p *Prop, idx int, o Options, r *Result) string { return reportFailure(p, idx, o, r) }

func reportFailure(p *Prop, idx int, o Options, r *Result) string {
	part := &p.Parts[idx]
	if part.Fresh {
		fmt.Printf("%s/%s fails: %s\n  case: %s\n", p.ID, part.Name, clip(r.Msg, 4000), clip(r.Desc, 4000))
		return WriteReplay(o.ReplayDir, &Replay{Property: p.ID, Part: part.Name, Tier: o.Tier, Seed: o.Seed, Choices: r.Choices, Message: r.Msg, Case: r.Desc, Stack: r.Stack})
	}
	slot := o.Slots.Bind(0)
	deadline := time.Now().Add(40 * time.Second)
	best := Shrink(*r, 6000, func(c []uint64) Result {
		if time.Now().After(deadline) {
			return Result{}
		}
		slot.EnterChoices(idx, c)
		defer slot.Leave()
		return RunCase(o.Tier, NewReplay(c), part.Run)
	})
	slot.Release()
	fmt.Printf("%s/%s fails: %s\n  case: %s\n", p.ID, part.Name, clip(best.Msg, 4000), clip(best.Desc, 4000))
	if best.Panicked {
		fmt.Println(clip(best.Stack, 3000))
	}
	rep := &Replay{Property: p.ID, Part: part.Name, Tier: o.Tier, Seed: o.Seed,
		Choices: best.Choices, Message: best.Msg, Case: best.Desc, Stack: best.Stack}
	name := WriteReplay(o.ReplayDir, rep)
	if o.Fresh == nil || o.Fresh(name) == 1 {
		return name
	}
	// the shrunk case does not fail by itself: it needs what this process did before it
	try := func(r *Replay) (string, bool) {
		n := WriteReplay(o.ReplayDir, r)
		if o.Fresh(n) == 1 {
			return n, true
		}
		os.Remove(n)
		return "", false
	}
	if n, ok := try(&Replay{Property: p.ID, Part: part.Name, Tier: o.Tier, Seed: o.Seed,
		Choices: r.Choices, Message: r.Msg, Case: r.Desc, Stack: r.Stack}); ok {
		os.Remove(name)
		return n
	}
	if !part.Exhaustive {
		deadline = time.Now().Add(60 * time.Second)
		for k := 4; time.Now().Before(deadline); k *= 8 {
			if k > r.Index {
				k = r.Index
			}
			if n, ok := try(&Replay{Property: p.ID, Part: part.Name, Tier: o.Tier, Seed: o.Seed,
				Before: k, At: r.Index, Message: r.Msg, Case: r.Desc, Stack: r.Stack}); ok {
				os.Remove(name)
				fmt.Printf("  (the failure needs up to %d earlier cases: the outcome depends on earlier calls)\n", k)
				return n
			}
			if k == r.Index {
				break
			}
		}
	}
	fmt.Println("  (the failure does not come back in a fresh process: the outcome depends on earlier or concurrent calls)")
	return name
}

// WriteReplay stores a replay file and returns its path.
func WriteReplay(dir string, r *Replay) string {
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(r, "", " ")
	name := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", r.Property, hashString(string(b))))
	if err := os.WriteFile(name, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write replay:", err)
	}
	return name
}

// RunReplay runs one replay; 1 if it fails, 0 if it does not.
func RunReplay(p *Prop, r *Replay, o Options) int {
	for i := range p.Parts {
		if p.Parts[i].Name != r.Part {
			continue
		}
		if p.Parts[i].Fresh && !r.Once {
			once := *r
			once.Once = true
			name := WriteReplay(os.TempDir(), &once)
			defer os.Remove(name)
			for k := 0; k < 100; k++ {
				if o.Fresh(name) == 1 {
					fmt.Printf("case: %s\nfails in a new process: %s\n", r.Case, r.Message)
					return 1
				}
			}
			fmt.Println("holds")
			return 0
		}
		slot := o.Slots.Bind(0)
		defer slot.Release()
		run := func(src *Src) int {
			slot.EnterSeed(i, 0)
			res := RunCase(r.Tier, src, p.Parts[i].Run)
			slot.Leave()
			if res.Failed {
				fmt.Printf("case: %s\nfails: %s\n%s\n", res.Desc, res.Msg, clip(res.Stack, 3000))
				return 1
			}
			return 0
		}
		if r.At > 0 {
			for k := r.At - r.Before; k <= r.At; k++ {
				if run(NewSrc(CaseSeed(r.Seed, p.ID, r.Part, k))) == 1 {
					return 1
				}
			}
			fmt.Println("holds")
			return 0
		}
		times := 1
		if p.Parts[i].Serial && !r.Once { // depends on the schedule
			times = 300
		}
		for began := time.Now(); times > 0 && time.Since(began) < 30*time.Second; times-- {
			src := NewSrc(r.CaseSeed)
			if len(r.Bytes) > 0 {
				src = NewBytes(r.Bytes[1:])
			} else if r.CaseSeed == 0 {
				src = NewReplay(r.Choices)
			}
			if run(src) == 1 {
				return 1
			}
		}
		fmt.Println("holds")
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such part:", r.Part)
	return 2
}

func writeEvidence(p *Prop, o Options, stats []*partStats, violations int, wall time.Duration) error {
	evals, nt := 0, 0
	allEx := len(stats) > 0
	var samples []string
	for _, s := range stats {
		evals += s.Evaluations
		nt += s.NonTrivial
		allEx = allEx && s.Exhaustive
		samples = append(samples, s.samples...)
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if samples == nil {
		samples = []string{}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": o.Tier, "seed": o.Seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": nt, "rule": p.Rule, "samples": samples,
			"parts": stats, "exhaustive": allEx, "workers": o.Workers, "go": runtime.Version(),
		},
		"assumptions": []string{
			"the reference JSON parser and tree model in /verif/harness/refjson are right (every generated document is also accepted by encoding/json)",
			"a case that burns 40 s of CPU time or 6 GB of heap on a few kilobytes of input does not terminate",
		},
		"wall_s": wall.Seconds(), "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(o.Evidence), 0o755)
	tmp := o.Evidence + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, o.Evidence)
}
