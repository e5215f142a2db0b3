// Command jincheck runs the generated checks of one property.
//
// The process given the property starts a worker process that runs the cases. If
// the worker dies (a fatal stack overflow, a case that does not terminate, memory
// exhaustion), the supervisor re-runs the cases it was working on one by one and
// reports a violation only for a case that dies again on its own.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"

	"jinverif/engine"
	"jinverif/props"
)

const raceExit = 66

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", env("VERIF_TIER", "quick"), "quick or thorough")
	seed := flag.Uint64("seed", envSeed(), "seed")
	replay := flag.String("replay", "", "replay file")
	part := flag.String("part", "", "only this part")
	scale := flag.Float64("scale", 0, "multiply case counts")
	root := flag.String("root", ".", "verification root (for evidence/ and replays/)")
	slots := flag.String("slots", "", "(worker) slot file")
	list := flag.Bool("list", false, "list properties")
	fuzzed := flag.String("fuzzed", "", "judge what a fuzzing run left in this directory (with -prop)")
	input := flag.String("input", "", "(worker) fuzzer input to judge")
	self := flag.Int("selftest", 0, "compare the reference parser with encoding/json on this many texts")
	flag.Parse()
	if *self > 0 {
		if err := props.SelfTest(*self, *seed); err != nil {
			fatal(err)
		}
		fmt.Println("the reference parser agrees with encoding/json")
		return
	}
	if *list {
		for _, p := range props.All() {
			fmt.Println(p.ID)
		}
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fatal(err)
		}
		var r engine.Replay
		if err := json.Unmarshal(b, &r); err != nil {
			fatal(err)
		}
		os.Exit(runReplay(&r, *slots))
	}
	p := props.Find(*prop)
	if p == nil {
		fatal(fmt.Errorf("unknown property %q", *prop))
	}
	if *fuzzed != "" {
		os.Exit(judge(p, *fuzzed, *root))
	}
	if *slots == "" {
		os.Exit(supervise(p, *tier, *seed, *root))
	}
	setup()
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	sl, err := engine.OpenSlots(*slots, workers)
	if err != nil {
		fatal(err)
	}
	sl.Watch()
	fresh := func(file string) int { return fresh(file, *slots+".fresh") }
	if *input != "" {
		os.Exit(judgeOne(p, *input, engine.Options{Fresh: fresh, Tier: "quick", Seed: *seed, ReplayDir: filepath.Join(*root, "replays"), Slots: sl}))
	}
	os.Exit(engine.RunProp(p, engine.Options{Fresh: fresh, Tier: *tier, Seed: *seed, Workers: workers, Scale: *scale, OnlyPart: *part,
		ReplayDir: filepath.Join(*root, "replays"), Evidence: filepath.Join(*root, "evidence", p.ID+".json"), Slots: sl}))
}

// fresh replays a file in a new process: 1 if it fails.
func fresh(file, slots string) int {
	c, sig, o := child([]string{"-replay", file, "-slots", slots + filepath.Base(file)}, true)
	os.Remove(slots + filepath.Base(file))
	if sig {
		return -1
	}
	if c == raceExit || c == engine.ExitHang || c == engine.ExitHeap || c == 2 && strings.Contains(o, "fatal error:") {
		return 1
	}
	return c
}

func setup() {
	debug.SetMaxStack(64 << 20)
	debug.SetGCPercent(300)
}

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func envSeed() uint64 {
	s := os.Getenv("VERIF_SEED")
	if n, err := strconv.ParseUint(s, 10, 64); err == nil {
		return n
	}
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	if s == "" {
		return 1
	}
	return h >> 1
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "jincheck:", err)
	os.Exit(2)
}

func runReplay(r *engine.Replay, slots string) int {
	p := props.Find(r.Property)
	if p == nil {
		fatal(fmt.Errorf("unknown property %q", r.Property))
	}
	setup()
	sl, err := engine.OpenSlots(slots, 1)
	if err != nil {
		fatal(err)
	}
	sl.Watch()
	dir, err := os.MkdirTemp("", "jinreplay")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	return engine.RunReplay(p, r, engine.Options{Slots: sl, Fresh: func(f string) int { return fresh(f, filepath.Join(dir, "slots")) }})
}

// tail keeps the end of a stream.
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte(nil), t.b[len(t.b)-1<<15:]...)
	}
	return len(p), nil
}

func child(args []string, quiet bool) (int, bool, string) {
	self, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	cmd := exec.Command(self, args...)
	var t tail
	cmd.Stdout, cmd.Stderr = os.Stdout, io.MultiWriter(os.Stderr, &t)
	if quiet {
		cmd.Stdout, cmd.Stderr = &t, &t
	}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 atexit_sleep_ms=20 exitcode="+strconv.Itoa(raceExit), "GOTRACEBACK=single")
	err = cmd.Run()
	if err == nil {
		return 0, false, string(t.b)
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ee.ExitCode() >= 0 {
			return ee.ExitCode(), false, string(t.b)
		}
		return -1, true, string(t.b)
	}
	fatal(err)
	return 2, false, ""
}

func supervise(p *engine.Prop, tier string, seed uint64, root string) int {
	dir, err := os.MkdirTemp("", "jincheck")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	slot := filepath.Join(dir, "slots")
	code, signalled, out := child(append(os.Args[1:], "-slots", slot), false)
	if !signalled && (code == 0 || code == 1) {
		return code
	}
	replays := filepath.Join(root, "replays")
	violation := func(s engine.Suspect, why string) int {
		r := &engine.Replay{Property: p.ID, Tier: tier, Seed: seed, CaseSeed: s.Seed, Choices: s.Choices, Message: why}
		if s.Part < len(p.Parts) {
			r.Part = p.Parts[s.Part].Name
		}
		name := engine.WriteReplay(replays, r)
		fmt.Printf("%s/%s: %s\nVIOLATION property=%s replay=%s\n", p.ID, r.Part, why, p.ID, name)
		return 1
	}
	suspects := engine.ReadSuspects(slot)
	if strings.Contains(out, "panic: harness error:") {
		fmt.Fprintln(os.Stderr, "jincheck: the harness is at fault")
		return 3
	}
	if code == raceExit && strings.Contains(out, "DATA RACE") {
		if len(suspects) == 0 {
			suspects = []engine.Suspect{{}}
		}
		return violation(suspects[0], "data race\n"+clip(out))
	}
	if signalled {
		fmt.Fprintln(os.Stderr, "jincheck: the worker was killed")
		return 3
	}
	// the worker died by itself: find the case that does it again
	for i, s := range suspects {
		if i >= 4 && !s.Marked {
			break
		}
		name := filepath.Join(dir, fmt.Sprintf("suspect%d.json", i))
		r := &engine.Replay{Property: p.ID, Tier: tier, Seed: seed, CaseSeed: s.Seed, Choices: s.Choices}
		if s.Part < len(p.Parts) {
			r.Part = p.Parts[s.Part].Name
		}
		b, _ := json.Marshal(r)
		if os.WriteFile(name, b, 0o600) != nil {
			continue
		}
		c, sig, o := child([]string{"-replay", name, "-slots", filepath.Join(dir, "one")}, true)
		if sig {
			continue
		}
		switch {
		case c == engine.ExitHang:
			return violation(s, "does not terminate")
		case c == engine.ExitHeap:
			return violation(s, "unbounded memory use")
		case c == 1:
			return violation(s, "fails: "+clip(o))
		case c == 2 && (strings.Contains(o, "fatal error:") || strings.Contains(o, "goroutine ") && strings.Contains(o, "panic:")):
			return violation(s, "kills the process: "+clip(o))
		}
	}
	if i := strings.Index(out, "fatal error:"); i >= 0 && strings.Contains(out[i:], "github.com/ecoshub/jin.") {
		// for instance concurrent map writes: it takes several goroutines
		if len(suspects) == 0 {
			suspects = []engine.Suspect{{}}
		}
		return violation(suspects[0], "kills the process: "+clip(out[i:]))
	}
	fmt.Fprintf(os.Stderr, "jincheck: the worker ended with code %d and no case reproduces it\n", code)
	return 3
}

// judge runs the inputs that a fuzzing run kept as failing, and adds the run's
// figures to the evidence.
func judge(p *engine.Prop, dir, root string) int {
	files, _ := filepath.Glob(filepath.Join(dir, "testdata", "fuzz", "FuzzProp", "*")) // kept by Go's fuzzer
	kept, _ := filepath.Glob(filepath.Join(dir, "failing", "*"))                       // kept by the target
	if len(kept) > 20 {
		kept = kept[:20]
	}
	files = append(files, kept...)
	code := 0
	for _, f := range files {
		slot := filepath.Join(dir, "slots-"+filepath.Base(f))
		c, _, out := child([]string{"-prop", p.ID, "-root", root, "-input", f, "-slots", slot}, true)
		if c == 1 {
			fmt.Print(out)
			code = 1
			break
		}
		if c == engine.ExitHang || c == engine.ExitHeap || c == 2 && strings.Contains(out, "fatal error:") {
			b, err := corpusBytes(f)
			if err != nil {
				continue
			}
			// the choices cannot be had from a case that does not end: keep its bytes
			r := &engine.Replay{Property: p.ID, Tier: "quick", Bytes: b, Part: p.Parts[int(b[0])%len(p.Parts)].Name,
				Message: map[int]string{engine.ExitHang: "does not terminate", engine.ExitHeap: "unbounded memory use", 2: "kills the process"}[c]}
			name := engine.WriteReplay(filepath.Join(root, "replays"), r)
			fmt.Printf("%s/%s: %s\nVIOLATION property=%s replay=%s\n", p.ID, r.Part, r.Message, p.ID, name)
			code = 1
			break
		}
		fmt.Fprintf(os.Stderr, "jincheck: %s does not fail when run alone\n", f)
	}
	log, _ := os.ReadFile(filepath.Join(dir, "fuzz.log"))
	last := ""
	for _, l := range strings.Split(string(log), "\n") {
		if strings.Contains(l, "execs: ") {
			last = l
		}
	}
	var execs, found int
	if i := strings.Index(last, "execs: "); i >= 0 {
		fmt.Sscanf(last[i:], "execs: %d", &execs)
	}
	if i := strings.Index(last, "new interesting: "); i >= 0 {
		fmt.Sscanf(last[i:], "new interesting: %d", &found)
	}
	fmt.Printf("%s fuzzing: %d cases, %d of them reached code in a new way\n", p.ID, execs, found)
	name := filepath.Join(root, "evidence", p.ID+".json")
	if b, err := os.ReadFile(name); err == nil {
		var ev map[string]interface{}
		if json.Unmarshal(b, &ev) == nil {
			if cov, ok := ev["coverage"].(map[string]interface{}); ok {
				cov["fuzzing"] = map[string]int{"evaluations": execs, "new_coverage": found, "failing_inputs": len(files)}
			}
			if code == 1 {
				ev["violations"] = 1
			}
			if b, err := json.MarshalIndent(ev, "", " "); err == nil {
				os.WriteFile(name, b, 0o644)
			}
		}
	}
	return code
}

// corpusBytes reads an input file of Go's fuzzer.
func corpusBytes(file string) ([]byte, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	s := string(b)
	i, j := strings.Index(s, "[]byte("), strings.LastIndexByte(s, ')')
	if i < 0 || j < i {
		return nil, fmt.Errorf("no input in %s", file)
	}
	u, err := strconv.Unquote(s[i+len("[]byte(") : j])
	if err == nil && u == "" {
		err = fmt.Errorf("empty input")
	}
	return []byte(u), err
}

func judgeOne(p *engine.Prop, file string, o engine.Options) int {
	b, err := corpusBytes(file)
	if err != nil {
		fatal(err)
	}
	slot := o.Slots.Bind(0)
	slot.EnterSeed(0, 0)
	r, i := props.RunBytes(p, b)
	slot.Leave()
	slot.Release()
	if !r.Failed {
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, engine.Report(p, i, o, &r))
	return 1
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}
