// Package vsched is a controlled scheduler: managed goroutines run one at a
// time and hand over only at scheduling points, so that every interleaving of
// the points can be enumerated. The hand-over must not order the memory
// accesses of the goroutines in the eyes of the race detector, otherwise it
// would hide the races of the schedule: all of its own state is accessed in
// functions that the race detector does not see, and waiting is spinning.
package vsched

import (
	"runtime"
	"time"
)

// MaxThreads per run.
const MaxThreads = 8

// MaxPoints per run.
const MaxPoints = 1 << 16

// Kinds of pending operations.
const (
	Yield = iota
	LockFree
	WantPending
	WantWrite
	WantRead
	WantZero
	WantDone
)

// State is the model of a synchronisation object.
type State struct {
	Writer  int32 // holding thread + 1
	Pending int32 // announced writer + 1
	Readers int32
	Count   int32 // wait groups
	Phase   int32 // once: 1 running 2 done
}

type thread struct {
	alive bool
	goid  uint64
	kind  int
	obj   *State
}

// One choice of a schedule.
type step struct {
	alts    int32 // number of alternatives
	choice  int32
	free    bool // switching costs nothing (the current thread cannot go on)
	current int32
}

var (
	active   bool
	cur      int32 = -1
	nthreads int32
	th       [MaxThreads]thread
	trace    [MaxPoints]step
	depth    int32
	prefix   [MaxPoints]int32
	nprefix  int32
	deadlock bool
	overflow bool
	ended    bool
	free     bool // the code waits for something else: let everything run
)

// goid is the number of the calling goroutine.
//
//go:norace
func goid() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	id := uint64(0)
	for i := 10; i < n && b[i] >= '0' && b[i] <= '9'; i++ {
		id = id*10 + uint64(b[i]-'0')
	}
	return id
}

//go:norace
func enabled(i int32) bool {
	t := &th[i]
	if !t.alive {
		return false
	}
	switch t.kind {
	case LockFree:
		return t.obj.Writer == 0
	case WantPending:
		return t.obj.Pending == 0
	case WantWrite:
		return t.obj.Readers == 0 && t.obj.Writer == 0
	case WantRead:
		return t.obj.Pending == 0
	case WantZero:
		return t.obj.Count <= 0
	case WantDone:
		return t.obj.Phase != 1
	}
	return true
}

// decide picks the thread that goes on; -1: nobody can.
//
//go:norace
func decide(self int32) int32 {
	var alts [MaxThreads]int32
	n := int32(0)
	selfOK := self >= 0 && enabled(self)
	if selfOK {
		alts[0] = self
		n = 1
	}
	for i := int32(0); i < nthreads; i++ {
		if i != self && enabled(i) {
			alts[n] = i
			n++
		}
	}
	if n == 0 {
		return -1
	}
	if depth >= MaxPoints-1 {
		overflow = true
		return alts[0]
	}
	c := int32(0)
	if depth < nprefix {
		c = prefix[depth]
		if c >= n {
			c = 0
		}
	}
	trace[depth].alts = n
	trace[depth].choice = c
	trace[depth].free = !selfOK
	trace[depth].current = alts[c]
	depth++
	return alts[c]
}

// Managed tells if the caller is a managed goroutine of a run.
//
//go:norace
func Managed() bool { return active && !free && cur >= 0 && th[cur].goid == goid() }

// Foreign tells if the caller is a goroutine that the code under test started
// itself during a run. Its operations are not part of the model.
//
//go:norace
func Foreign() bool { return active && !Managed() }

// Point is a scheduling point: the thread announces its next operation and
// waits for its turn. When it returns the operation is possible.
//
//go:norace
func Point(kind int, obj *State) {
	self := cur
	th[self].kind = kind
	th[self].obj = obj
	next := decideOrWait(self)
	if next == self || free {
		return
	}
	if next == -1 {
		deadlock = true
		ended = true
		cur = -1
		for {
			park()
		}
	}
	cur = next
	for cur != self && !free {
		runtime.Gosched()
	}
}

// decideOrWait gives goroutines of the code under test a chance to finish
// what the threads are waiting for.
//
//go:norace
func decideOrWait(self int32) int32 {
	next := decide(self)
	for i := 0; next == -1 && i < 100 && anyAlive(); i++ {
		time.Sleep(time.Millisecond)
		next = decide(self)
	}
	return next
}

//go:norace
func anyAlive() bool {
	for i := int32(0); i < nthreads; i++ {
		if th[i].alive {
			return true
		}
	}
	return false
}

// park: this goroutine is stuck forever.
func park() { select {} }

//go:norace
func begin(n int32) {
	nthreads = n
	depth = 0
	deadlock, overflow, ended, free = false, false, false, false
	for i := int32(0); i < n; i++ {
		th[i].alive = true
		th[i].kind = Yield
		th[i].obj = nil
	}
	cur = -1
	active = true
}

//go:norace
func await(self int32) {
	th[self].goid = goid()
	for cur != self && !free {
		runtime.Gosched()
	}
}

//go:norace
func finish(self int32) {
	th[self].alive = false
	if free {
		ended = !anyAlive()
		return
	}
	next := decideOrWait(self)
	if next == -1 {
		deadlock = anyAlive()
		ended = true
		cur = -1
		return
	}
	cur = next
}

//go:norace
func start() {
	cur = decide(-1)
	last, since := int32(-1), time.Now()
	for i := 0; !ended; i++ {
		runtime.Gosched()
		if i%4096 != 0 {
			continue
		}
		if depth != last {
			last, since = depth, time.Now()
		} else if d := time.Since(since); d > 20*time.Second {
			deadlock = true
			break
		} else if d > 2*time.Second && !free {
			free = true
		}
	}
	active = false
	nthreads = 0
}

// Result of one schedule.
type Result struct {
	Deadlock bool
	Overflow bool
	Free     bool // not under control to the end
	Points   int
	Schedule []int32 // choices
	steps    []step
}

//go:norace
func result() (d, o, f bool, n int32) { return deadlock, overflow, free, depth }

//go:norace
func stepAt(i int32) (int32, int32, bool, int32) {
	return trace[i].alts, trace[i].choice, trace[i].free, trace[i].current
}

//go:norace
func setPrefix(i int32, v int32) { prefix[i] = v }

//go:norace
func setLen(n int32) { nprefix = n }

// Run executes the bodies under the schedule that begins with the choices of
// pre and goes on without preemption.
func Run(pre []int32, bodies []func()) Result {
	for i, v := range pre {
		setPrefix(int32(i), v)
	}
	setLen(int32(len(pre)))
	begin(int32(len(bodies)))
	done := make(chan struct{}, len(bodies))
	for i, b := range bodies {
		go func() {
			await(int32(i))
			defer func() {
				// The end of a thread orders what comes after the run.
				done <- struct{}{}
				finish(int32(i))
			}()
			b()
		}()
	}
	start()
	d, o, f, n := result()
	if !d {
		for range bodies {
			<-done
		}
	}
	r := Result{Deadlock: d, Overflow: o, Free: f, Points: int(n)}
	for i := int32(0); i < n; i++ {
		a, c, f, cu := stepAt(i)
		r.steps = append(r.steps, step{a, c, f, cu})
		r.Schedule = append(r.Schedule, c)
	}
	return r
}

// Next is the first choices of the next schedule in depth-first order with at
// most bound preemptions; nil when there is none.
func (r Result) Next(bound int) []int32 {
	cost := make([]int, len(r.steps)+1)
	for i, s := range r.steps {
		cost[i+1] = cost[i]
		if s.choice > 0 && !s.free {
			cost[i+1]++
		}
	}
	for i := len(r.steps) - 1; i >= 0; i-- {
		s := r.steps[i]
		if s.choice+1 >= s.alts {
			continue
		}
		if !s.free && cost[i]+1 > bound {
			continue
		}
		p := make([]int32, i+1)
		for k := range i {
			p[k] = r.steps[k].choice
		}
		p[i] = s.choice + 1
		return p
	}
	return nil
}
