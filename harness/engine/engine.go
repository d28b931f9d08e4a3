// Package engine is a stateless explorer: it enumerates every resolution of the
// choices a family makes (depth-first, within the family's bounds), runs the
// code under test on each, and supervises the workers so that a crash, a hang or
// a memory explosion of the code under test is itself a result.
package engine

import (
	"fmt"
	"hash/fnv"
	"os"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// X is the source of choices of one execution.
type X struct {
	trail  []step
	pos    int
	budget int
	spent  int
	nodes  uint64
}

type step struct {
	n, pick int
	dev     bool
}

// Choose returns each of 0..n-1 in turn over the executions.
func (x *X) Choose(n int) int { return x.choose(n, false) }

// Dev is Choose for a deviation: 0 is the default, any other answer spends one
// unit of the family's deviation budget.
func (x *X) Dev(n int) int { return x.choose(n, true) }

// Bool is a free binary choice.
func (x *X) Bool() bool { return x.choose(2, false) == 1 }

// DevBool is a binary deviation.
func (x *X) DevBool() bool { return x.choose(2, true) == 1 }

func (x *X) choose(n int, dev bool) int {
	if n <= 0 {
		panic("engine: empty choice")
	}
	if x.pos < len(x.trail) {
		s := &x.trail[x.pos]
		x.pos++
		if s.n == 0 { // replayed from a list of picks
			s.n, s.dev = n, dev
		}
		if s.n != n && s.pick < n {
			panic(fmt.Sprintf("engine: nondeterministic family: choice %d had %d options, now %d", x.pos-1, s.n, n))
		}
		if dev && s.pick != 0 {
			x.spent++
		}
		return s.pick
	}
	x.trail = append(x.trail, step{n: n, dev: dev})
	x.pos++
	x.nodes++
	return 0
}

// next moves to the next unexplored trail; false when there is none.
func (x *X) next() bool {
	x.trail = x.trail[:x.pos] // a run may end early
	for i := len(x.trail) - 1; i >= 0; i-- {
		s := &x.trail[i]
		if s.pick+1 < s.n {
			if s.dev && s.pick == 0 {
				spent := 0
				for _, t := range x.trail[:i] {
					if t.dev && t.pick != 0 {
						spent++
					}
				}
				if spent >= x.budget {
					x.trail = x.trail[:i]
					continue
				}
			}
			s.pick++
			x.nodes++
			x.trail = x.trail[:i+1]
			x.pos, x.spent = 0, 0
			return true
		}
		x.trail = x.trail[:i]
	}
	return false
}

func (x *X) picks() []int {
	p := make([]int, 0, x.pos)
	for _, s := range x.trail[:x.pos] {
		p = append(p, s.pick)
	}
	return p
}

// Family is one bounded space of executions.
type Family struct {
	Name   string
	Bound  string // the bound, in words
	Budget int    // deviation budget
	// Run resolves its choices through x and, when w.Mine() says so, executes
	// and checks the case.
	Run func(x *X, w *W)
}

// Violation is one failing execution.
type Violation struct {
	Family string `json:"family"`
	Picks  []int  `json:"picks"`
	Sig    string `json:"sig"`
	Msg    string `json:"msg"`
	Input  string `json:"input"`
}

// FamStat is what was covered of one family.
type FamStat struct {
	Name       string `json:"name"`
	Bound      string `json:"bound"`
	Executions uint64 `json:"executions"` // cases executed on the implementation by this worker
	Choices    uint64 `json:"choices"`    // nodes of the choice tree
	Steps      uint64 `json:"steps"`      // implementation operations driven and compared
	Complete   bool   `json:"complete"`
}

// W is one worker.
type W struct {
	Prop  string
	Tier  string
	Dir   string // scratch directory of this worker, removed by the supervisor
	shard int
	n     int

	famIdx   int
	counter  uint64 // leaf counter within the family
	skipTo   uint64
	skipFam  int
	deadline time.Time
	x        *X
	fam      *Family
	stat     *FamStat
	only     bool // replaying one case

	shm        []byte
	States     map[uint64]struct{}
	Samples    []string
	Violations []Violation
	sampleAt   uint64
	input      func() string
	known      map[string]bool // signatures of known findings; true: recorded
	nknown     int
}

type stopFamily struct{}
type stopAll struct{}

const shmSize = 1 << 16

// Thorough reports whether the deep tier is running.
func (w *W) Thorough() bool { return w.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func Pick[T any](w *W, q, t T) T {
	if w.Thorough() {
		return t
	}
	return q
}

// Mine counts a case and tells if this worker is the one to execute it. input
// describes the case for reports; it is only called when needed.
func (w *W) Mine(input func() string) bool {
	w.counter++
	if w.only {
		if describing {
			panic(describeOnly(input()))
		}
		w.input = input
		return true
	}
	// cases are dealt by a mix of their number: dealt in turn, an innermost
	// choice of two or four would give some workers all of the costly cases
	if int((w.counter*0x9E3779B97F4A7C15>>32)%uint64(w.n)) != w.shard {
		return false
	}
	if w.famIdx == w.skipFam && w.counter <= w.skipTo {
		return false
	}
	w.input = input
	w.stat.Executions++
	w.publish()
	if w.stat.Executions%64 == 0 && time.Now().After(w.deadline) {
		panic(stopAll{})
	}
	if w.stat.Executions == w.sampleAt+1 {
		w.sampleAt = w.sampleAt*40 + 3
		if len(w.Samples) < 60 {
			w.Samples = append(w.Samples, w.fam.Name+": "+clip(input(), 600))
		}
	}
	return true
}

// Step counts operations driven on the implementation and compared.
func (w *W) Step(n int) { w.stat.Steps += uint64(n) }

// State records a distinct abstract state.
func (w *W) State(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	if len(w.States) < 4_000_000 {
		w.States[h.Sum64()] = struct{}{}
	}
}

// Heartbeat tells the supervisor that a long case is making progress.
func (w *W) Heartbeat() {
	if w.shm != nil {
		atomic.AddUint64((*uint64)(unsafe.Pointer(&w.shm[0])), 1)
	}
}

func (w *W) publish() {
	if w.shm == nil {
		return
	}
	p := 24
	put := func(v uint64) {
		*(*uint64)(unsafe.Pointer(&w.shm[p])) = v
		p += 8
	}
	put(uint64(w.famIdx))
	put(w.counter)
	n := w.x.pos
	if n > (shmSize-64)/4 {
		n = (shmSize - 64) / 4
	}
	put(uint64(n))
	for i := 0; i < n; i++ {
		*(*uint32)(unsafe.Pointer(&w.shm[p+4*i])) = uint32(w.x.trail[i].pick)
	}
	*(*uint64)(unsafe.Pointer(&w.shm[8])) = 1
	w.Heartbeat()
}

// Fail records a violation of the property by the current case.
func (w *W) Fail(sig, format string, args ...any) {
	if met, ok := w.known[sig]; ok {
		// a known finding is recorded once and doesn't end the exploration
		if met {
			return
		}
		w.known[sig] = true
		w.nknown++
	}
	in := ""
	if w.input != nil {
		in = w.input()
	}
	w.Violations = append(w.Violations, Violation{
		Family: w.fam.Name, Picks: w.x.picks(), Sig: sig, Msg: fmt.Sprintf(format, args...), Input: in,
	})
	if len(w.Violations)-w.nknown >= 5 && !w.only {
		panic(stopAll{})
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

func (w *W) runFamily(i int, f *Family) (st FamStat, all bool) {
	st = FamStat{Name: f.Name, Bound: f.Bound}
	w.famIdx, w.fam, w.stat, w.counter, w.sampleAt = i, f, &st, 0, 0
	x := &X{budget: f.Budget}
	w.x = x
	defer func() {
		st.Choices = x.nodes
		if r := recover(); r != nil {
			if _, ok := r.(stopAll); ok {
				all = true
				return
			}
			panic(r)
		}
	}()
	for {
		f.Run(x, w)
		w.input = nil
		if !x.next() {
			break
		}
	}
	st.Complete = true
	return st, false
}

func mapShared(path string) []byte {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil
	}
	defer f.Close()
	if err := f.Truncate(shmSize); err != nil {
		return nil
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, shmSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return b
}
