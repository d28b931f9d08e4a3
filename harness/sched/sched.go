// Package sched runs goroutines under a controlled scheduler: one at a time,
// switching only before operations that synchronise, as a script says.
//
// The code under test is rewritten (harness/weave) so that go statements,
// channel operations and package sync go through here. The real operation is
// always carried out as well, so that the race detector sees exactly the
// synchronisation of the original code: everything the scheduler does itself is
// hidden from it (norace, no atomics; it needs GOMAXPROCS=1).
package sched

import (
	"runtime"
	"sync"
	"unsafe"
)

const (
	maxG     = 64
	maxSteps = 1 << 14
)

type state uint8

const (
	done    state = iota // has ended
	ready                // can go on
	pending              // is about to synchronise
	inOp                 // carries out its operation
)

type kind uint8

const (
	opYield kind = iota
	opSend
	opRecv
	opLock  // p: *Lock
	opRLock // p: *Lock
	opWait  // p: *Count
)

// Lock is the state of a lock, Count of a counter.
type Lock struct {
	W bool
	R int
}

// Count is the state of a wait group.
type Count struct{ N int }

type g struct {
	st   state
	op   kind
	p    unsafe.Pointer // channel, *Lock or *Count
	root bool
}

// The first words of the runtime's channel.
type hchan struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
}

var (
	active  bool
	aborted bool
	baton   int // the goroutine that runs
	gs      [maxG]g
	ng      int
	inOps   int
	picked  int
	ended   bool
	stuck   bool // some root cannot go on
	left    int  // goroutines left behind
	over    bool // a limit was hit

	script  [64][2]int // position and pick of the decisions that are not the default
	nscript int
	counts  [maxSteps]int32 // options at every decision
	ncounts int
	steps   int // operations carried out

	all sync.WaitGroup
)

// Result is what one controlled execution did.
type Result struct {
	Counts  []int32 // options at every decision
	Steps   int
	Stuck   bool // a root was blocked for good
	Left    int  // goroutines blocked for good
	Limited bool
}

// Active tells whether a controlled execution is under way.
//
//go:norace
func Active() bool { return active && !aborted }

// Run runs the roots to their end, deciding as the script says.
//
//go:norace
func Run(choices [][2]int, roots ...func()) Result {
	ng, inOps, ended, stuck, left, over, ncounts, steps, aborted = 0, 0, false, false, 0, false, 0, 0, false
	nscript = len(choices)
	for i := range choices {
		script[i] = choices[i]
	}
	baton = -1
	active = true
	for _, f := range roots {
		start(f, true)
	}
	pass(0)
	for !ended {
		runtime.Gosched()
	}
	res := Result{Stuck: stuck, Left: left, Limited: over, Steps: steps}
	for i := 0; i < ncounts; i++ {
		res.Counts = append(res.Counts, counts[i])
	}
	aborted = true // ends those left behind
	all.Wait()
	active = false
	return res
}

//go:norace
func start(f func(), root bool) {
	id := ng
	if id >= maxG {
		panic("sched: too many goroutines")
	}
	ng++
	gs[id] = g{st: ready, root: root}
	all.Add(1)
	go func() {
		defer all.Done()
		defer exit(id)
		wait(id)
		f()
	}()
}

//go:norace
func exit(id int) {
	if aborted {
		return
	}
	gs[id].st = done
	pass(id)
}

//go:norace
func wait(id int) {
	for baton != id {
		if aborted {
			runtime.Goexit()
		}
		runtime.Gosched()
	}
}

// enabled tells whether goroutine i can go on, and with which partner.
//
//go:norace
func enabled(i int) (ok bool, partner int) {
	x := &gs[i]
	switch x.st {
	case ready:
		return true, -1
	case pending:
		switch x.op {
		case opYield:
			return true, -1
		case opSend, opRecv:
			c := (*hchan)(x.p)
			if c == nil {
				return false, -1
			}
			if c.closed != 0 {
				return true, -1
			}
			if x.op == opSend && c.qcount < c.dataqsiz || x.op == opRecv && c.qcount > 0 {
				return true, -1
			}
			if c.dataqsiz == 0 {
				for j := 0; j < ng; j++ {
					if gs[j].st == pending && gs[j].p == x.p && (gs[j].op == opSend && x.op == opRecv || gs[j].op == opRecv && x.op == opSend) {
						return true, j
					}
				}
			}
		case opLock:
			l := (*Lock)(x.p)
			return !l.W && l.R == 0, -1
		case opRLock:
			return !(*Lock)(x.p).W, -1
		case opWait:
			return (*Count)(x.p).N == 0, -1
		}
	}
	return false, -1
}

// pass decides who goes on, from being the one that runs.
//
//go:norace
func pass(from int) {
	if aborted || ended {
		return
	}
	n := 0
	var opts [maxG]int
	if from >= 0 {
		if ok, _ := enabled(from); ok {
			opts[n] = from
			n++
		}
	}
	for k := 1; k <= ng; k++ {
		i := (from + k) % ng
		if i == from {
			continue
		}
		if ok, _ := enabled(i); ok {
			opts[n] = i
			n++
		}
	}
	if n == 0 || ncounts >= maxSteps {
		for i := 0; i < ng; i++ {
			if gs[i].st != done {
				left++
				if gs[i].root {
					stuck = true
				}
			}
		}
		if n > 0 {
			over, stuck, left = true, false, 0
		}
		ended = true
		return
	}
	pick := 0
	for i := 0; i < nscript; i++ {
		if script[i][0] == ncounts {
			pick = script[i][1]
		}
	}
	if n > 1 { // a decision
		counts[ncounts] = int32(n)
		ncounts++
		if pick >= n {
			pick = 0
		}
	} else {
		pick = 0
	}
	i := opts[pick]
	_, partner := enabled(i)
	if gs[i].st == pending {
		steps++
		inOps, picked, baton = 1, i, -2
		if partner >= 0 {
			inOps = 2
			gs[partner].st = inOp
		}
		gs[i].st = inOp
		return // both see it
	}
	gs[i].st = ready
	baton = i
}

// before announces an operation and returns when it can be carried out.
//
//go:norace
func before(k kind, p unsafe.Pointer) (id int) {
	id = baton
	x := &gs[id]
	x.st, x.op, x.p = pending, k, p
	pass(id)
	for x.st != inOp {
		if aborted {
			runtime.Goexit()
		}
		runtime.Gosched()
	}
	return id
}

// after is called when the operation is carried out.
//
//go:norace
func after(id int) {
	if aborted {
		runtime.Goexit()
	}
	if finish(id) {
		pass(picked) // the one that was picked goes on, if nothing else is decided
	}
	wait(id)
}

// finish must not be interrupted (see GODEBUG=asyncpreemptoff=1).
//
//go:nosplit
//go:norace
func finish(id int) bool {
	gs[id].st = ready
	inOps--
	return inOps == 0
}

// Point is a place where another goroutine may go on.
//
//go:norace
func Point() {
	if !Active() {
		return
	}
	after(before(opYield, nil))
}

// Go starts a goroutine.
//
//go:norace
func Go(f func()) {
	if !Active() {
		go f()
		return
	}
	start(f, false)
}

// Send returns the function that sends on ch.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !Active() {
			ch <- v
			return
		}
		id := before(opSend, *(*unsafe.Pointer)(unsafe.Pointer(&ch)))
		ch <- v
		after(id)
	}
}

// Recv receives from ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 receives from ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	id := before(opRecv, *(*unsafe.Pointer)(unsafe.Pointer(&ch)))
	v, ok := <-ch
	after(id)
	return v, ok
}

// Close closes ch.
func Close[T any](ch chan<- T) {
	if !Active() {
		close(ch)
		return
	}
	id := before(opYield, nil)
	close(ch)
	after(id)
}

// Locked carries out f once the lock is free, and takes it.
//
//go:norace
func Locked(l *Lock, read bool, f func()) {
	if !Active() {
		f()
		return
	}
	k := opLock
	if read {
		k = opRLock
	}
	id := before(k, unsafe.Pointer(l))
	if read {
		l.R++
	} else {
		l.W = true
	}
	f()
	after(id)
}

// Unlocked gives the lock back.
//
//go:norace
func Unlocked(l *Lock, read bool) {
	if read {
		l.R--
	} else {
		l.W = false
	}
}

// Free tells whether the lock is free, and takes it.
//
//go:norace
func Free(l *Lock, read bool) bool {
	if l.W || !read && l.R > 0 {
		return false
	}
	if read {
		l.R++
	} else {
		l.W = true
	}
	return true
}

// Counted changes the counter.
//
//go:norace
func Counted(c *Count, n int) { c.N += n }

// Waited carries out f once the counter is zero.
//
//go:norace
func Waited(c *Count, f func()) {
	if !Active() {
		f()
		return
	}
	id := before(opWait, unsafe.Pointer(c))
	f()
	after(id)
}
