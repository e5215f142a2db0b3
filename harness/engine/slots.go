package engine

import (
	"encoding/binary"
	"fmt"
	"os"
	"runtime"
	"runtime/metrics"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Slots record, in a file shared with the supervising process, which case every
// worker is running, so that a case that kills or hangs the process can be found.
type Slots struct {
	mem   []byte
	state []slotState
}

type slotState struct {
	tid    int64 // thread of the worker
	active int64 // 1 while a case runs
	gen    int64 // counts cases
	_      [5]int64
}

// Slot is one worker's record.
type Slot struct {
	s *Slots
	i int
	b []byte
}

const (
	slotBytes = 1 << 17
	// CPULimit is the CPU time one case may use.
	CPULimit = 40 * time.Second
	// WallLimit is the time one case may take (a deadlock uses no CPU).
	WallLimit = 120 * time.Second
	// HeapLimit is the live heap a run may reach.
	HeapLimit = 6 << 30
	// ExitHang and ExitHeap are exit codes of a child stopped by the watchdog.
	ExitHang = 40
	ExitHeap = 41
)

// OpenSlots maps the slot file (creating it); path "" keeps it in memory.
func OpenSlots(path string, workers int) (*Slots, error) {
	n := workers * slotBytes
	s := &Slots{state: make([]slotState, workers)}
	if path == "" {
		s.mem = make([]byte, n)
		return s, nil
	}
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(int64(n)); err != nil {
		return nil, err
	}
	s.mem, err = syscall.Mmap(int(f.Fd()), 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	return s, err
}

// Bind ties worker w to its slot and thread.
func (s *Slots) Bind(w int) *Slot {
	runtime.LockOSThread()
	atomic.StoreInt64(&s.state[w].tid, int64(syscall.Gettid()))
	return &Slot{s, w, s.mem[w*slotBytes : (w+1)*slotBytes]}
}

// Release undoes Bind.
func (sl *Slot) Release() { runtime.UnlockOSThread() }

func threadCPU(tid int64) int64 {
	clock := uintptr(uint32(int32(^tid<<3) | 6))
	var ts syscall.Timespec
	_, _, e := syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, clock, uintptr(unsafe.Pointer(&ts)), 0)
	if e != 0 {
		return -1
	}
	return ts.Nano()
}

// EnterSeed records that a case given by its seed starts.
func (sl *Slot) EnterSeed(part int, seed uint64) {
	binary.LittleEndian.PutUint64(sl.b[8:], uint64(part))
	binary.LittleEndian.PutUint64(sl.b[16:], seed)
	binary.LittleEndian.PutUint64(sl.b[24:], 0)
	sl.enter()
}

// EnterChoices records that a case given by its choices starts.
func (sl *Slot) EnterChoices(part int, c []uint64) {
	n := len(c)
	if n > slotBytes/8-8 {
		n = slotBytes/8 - 8
	}
	binary.LittleEndian.PutUint64(sl.b[8:], uint64(part))
	binary.LittleEndian.PutUint64(sl.b[16:], 0)
	binary.LittleEndian.PutUint64(sl.b[24:], uint64(n))
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint64(sl.b[32+8*i:], c[i])
	}
	sl.enter()
}

func (sl *Slot) enter() {
	binary.LittleEndian.PutUint64(sl.b[0:], 1)
	st := &sl.s.state[sl.i]
	atomic.AddInt64(&st.gen, 1)
	atomic.StoreInt64(&st.active, 1)
}

// Leave records that the case has ended.
func (sl *Slot) Leave() {
	atomic.StoreInt64(&sl.s.state[sl.i].active, 0)
	binary.LittleEndian.PutUint64(sl.b[0:], 0)
}

// Suspect is a case that was running when a run died.
type Suspect struct {
	Part    int
	Seed    uint64
	Choices []uint64
	Marked  bool // picked by the watchdog
}

// ReadSuspects reads the cases recorded as running in a slot file.
func ReadSuspects(path string) []Suspect {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []Suspect
	for ; len(b) >= slotBytes; b = b[slotBytes:] {
		state := binary.LittleEndian.Uint64(b)
		if state == 0 {
			continue
		}
		s := Suspect{Part: int(binary.LittleEndian.Uint64(b[8:])), Seed: binary.LittleEndian.Uint64(b[16:]), Marked: state == 2}
		n := int(binary.LittleEndian.Uint64(b[24:]))
		for i := 0; i < n; i++ {
			s.Choices = append(s.Choices, binary.LittleEndian.Uint64(b[32+8*i:]))
		}
		if s.Marked {
			out = append([]Suspect{s}, out...)
		} else {
			out = append(out, s)
		}
	}
	return out
}

// Watch starts the watchdog: a case that exceeds the CPU limit, or a run that
// exceeds the heap limit, ends the process with ExitHang or ExitHeap after the
// responsible slot has been marked.
func (s *Slots) Watch() {
	gens := make([]int64, len(s.state))
	cpu0 := make([]int64, len(s.state))
	used := make([]int64, len(s.state))
	since := make([]time.Time, len(s.state))
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	mark := func(w, code int, what string) {
		binary.LittleEndian.PutUint64(s.mem[w*slotBytes:], 2)
		fmt.Fprintf(os.Stderr, "watchdog: %s in worker %d\n", what, w)
		os.Exit(code)
	}
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			worst := 0
			for w := range s.state {
				st := &s.state[w]
				used[w] = 0
				if atomic.LoadInt64(&st.active) == 0 {
					gens[w] = 0
					continue
				}
				g := atomic.LoadInt64(&st.gen)
				c := threadCPU(atomic.LoadInt64(&st.tid))
				if g != gens[w] {
					gens[w], cpu0[w], since[w] = g, c, time.Now()
					continue
				}
				used[w] = c - cpu0[w]
				if used[w] > int64(CPULimit) {
					mark(w, ExitHang, "CPU limit exceeded")
				}
				if time.Since(since[w]) > WallLimit {
					mark(w, ExitHang, "time limit exceeded")
				}
				if used[w] > used[worst] {
					worst = w
				}
			}
			metrics.Read(sample)
			if sample[0].Value.Uint64() > HeapLimit {
				mark(worst, ExitHeap, "heap limit exceeded")
			}
		}
	}()
}
