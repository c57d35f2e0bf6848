// Package vsync is a controlled stand-in for package sync.
//
// Code built against it (through a build overlay that replaces the import of "sync") runs under
// an explorer that decides, at every synchronisation operation, which thread goes next and which
// object a pool hands out, and enumerates those decisions exhaustively.
// The primitives announce exactly the happens-before edges of the real ones to the race detector,
// and the scheduler's own hand-over between threads announces none, so that the race detector
// judges every explored schedule by the synchronisation of the code under test alone.
// Outside of an exploration the primitives work for a single thread.
package vsync

import (
	"fmt"
	"sync"
	"unsafe"
)

const (
	maxThreads = 8
	maxChoices = 1 << 14
)

type threadState uint8

const (
	runnable threadState = iota
	waitRead
	waitWrite
	waitGroup
	waitCond
	waitOnce
	finished
)

type thread struct {
	state threadState
	lock  *lockState
	turn  chan struct{}
	msg   string // panic or failure
}

// lockState is the state of any lock.
type lockState struct {
	epoch   uint64
	writer  bool
	readers int
	pending int // writers waiting
	count   int // wait groups
}

//go:norace
func (l *lockState) fresh() {
	if l.epoch != epoch {
		*l = lockState{epoch: epoch}
	}
}

type choice struct{ pick, n int32 }

// Explorer runs one program under every schedule.
type Explorer struct {
	// Preemptions bounds the number of involuntary switches (negative: unbounded).
	Preemptions int
	// PoolChoices bounds the number of times a pool hands out something else than the newest object it
	// holds (negative: unbounded).
	PoolChoices int
	// Stop ends the exploration early.
	Stop func() bool
	// MaxSteps bounds one execution.
	MaxSteps int

	threads  [maxThreads]thread
	n        int
	cur      int
	left     int // preemptions left
	odd      int // pool choices left
	steps    int
	aborting bool
	done     sync.WaitGroup
	main     chan struct{}

	stack [maxChoices]choice
	depth int // recorded choices
	pos   int // position in the current execution
	fail  string

	// Undetermined is set if an execution took another course than its schedule's first one
	// (state that outlives executions, such as a table built on first use).
	Undetermined bool

	Executions int
	Points     int // scheduling decisions over all executions
}

var (
	active *Explorer
	epoch  uint64 = 1
)

type abort struct{}

// choose returns the next decision out of n.
//
//go:norace
func (e *Explorer) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if e.pos == maxChoices {
		e.stop("too many decisions in one execution")
		return 0
	}
	if e.pos == e.depth {
		e.stack[e.pos] = choice{0, int32(n)}
		e.depth++
	} else if int(e.stack[e.pos].n) != n {
		e.Undetermined = true
		e.stop("undetermined")
		return 0
	}
	e.Points++
	c := e.stack[e.pos].pick
	e.pos++
	return int(c)
}

//go:norace
func (e *Explorer) stop(msg string) {
	if e.fail == "" {
		e.fail = msg
	}
	e.aborting = true
}

// enabled says if a thread can go on.
//
//go:norace
func (t *thread) enabled() bool {
	switch t.state {
	case runnable:
		return true
	case waitRead:
		return !t.lock.writer && t.lock.pending == 0
	case waitWrite:
		return !t.lock.writer && t.lock.readers == 0
	case waitGroup:
		return t.lock.count <= 0
	case waitOnce:
		return !t.lock.writer
	default:
		return false
	}
}

// point is a scheduling decision of the current thread; it may be blocked or finished.
//
//go:norace
func (e *Explorer) point() {
	if e.aborting {
		e.exitAll()
		return
	}
	e.steps++
	if e.steps > e.MaxSteps {
		e.stop(fmt.Sprintf("no end after %d steps", e.MaxSteps))
		e.exitAll()
		return
	}
	var opts [maxThreads]int
	n := 0
	me := &e.threads[e.cur]
	free := me.enabled()
	if free {
		opts[0] = e.cur
		n = 1
	}
	if !free || e.left != 0 {
		for i := 0; i < e.n; i++ {
			if i != e.cur && e.threads[i].enabled() {
				opts[n] = i
				n++
			}
		}
	}
	if n == 0 {
		all := true
		for i := 0; i < e.n; i++ {
			all = all && e.threads[i].state == finished
		}
		if all {
			raceOff()
			e.main <- struct{}{}
			raceOn()
			return
		}
		e.stop("deadlock: every unfinished thread waits for another")
		e.exitAll()
		return
	}
	next := opts[e.choose(n)]
	if e.aborting {
		e.exitAll()
		return
	}
	if free && next != e.cur && e.left > 0 {
		e.left--
	}
	e.switchTo(next)
}

//go:norace
func (e *Explorer) switchTo(next int) {
	me := e.cur
	t := &e.threads[me]
	if next == me {
		e.resume(t)
		return
	}
	e.cur = next
	raceOff()
	e.threads[next].turn <- struct{}{}
	if t.state == finished {
		raceOn()
		return
	}
	<-t.turn
	raceOn()
	if e.aborting {
		panic(abort{})
	}
	e.resume(t)
}

// resume completes the operation a thread was waiting for.
//
//go:norace
func (e *Explorer) resume(t *thread) {
	switch t.state {
	case waitRead:
		t.lock.readers++
	case waitWrite:
		t.lock.pending--
		t.lock.writer = true
	case waitOnce:
		t.lock.writer = true
	}
	if t.state != finished {
		t.state = runnable
	}
}

// exitAll ends an execution that has failed: every thread unwinds.
//
//go:norace
func (e *Explorer) exitAll() {
	me := e.cur
	if e.threads[me].state != finished {
		panic(abort{})
	}
	for i := 0; i < e.n; i++ {
		if e.threads[i].state != finished {
			e.cur = i
			raceOff()
			e.threads[i].turn <- struct{}{}
			raceOn()
			return
		}
	}
	raceOff()
	e.main <- struct{}{}
	raceOn()
}

//go:norace
func (e *Explorer) begin(i int) {
	raceOff()
	<-e.threads[i].turn
	raceOn()
	if e.aborting {
		panic(abort{})
	}
}

//go:norace
func (e *Explorer) finish(i int) {
	e.threads[i].state = finished
	e.point()
}

//go:norace
func (e *Explorer) failed(i int, msg string) {
	if e.threads[i].msg == "" {
		e.threads[i].msg = msg
	}
	e.stop(msg)
}

func (e *Explorer) run(i int, body func()) {
	defer e.done.Done()
	e.guard(i, body)
	e.finish(i)
}

func (e *Explorer) guard(i int, body func()) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(abort); ok {
				return
			}
			e.failed(i, fmt.Sprintf("thread %d: %v", i, x))
		}
	}()
	e.begin(i)
	body()
}

//go:norace
func (e *Explorer) setup(n int) {
	e.n = n
	e.cur = 0
	e.left = e.Preemptions
	e.odd = e.PoolChoices
	e.steps = 0
	e.pos = 0
	e.aborting = false
	e.fail = ""
	for i := 0; i < n; i++ {
		e.threads[i] = thread{turn: make(chan struct{}, 1)}
	}
	e.main = make(chan struct{}, 1)
	active = e
}

//go:norace
func (e *Explorer) start() {
	// which thread goes first is a decision too
	first := e.choose(e.n)
	e.cur = first
	raceOff()
	e.threads[first].turn <- struct{}{}
	<-e.main
	raceOn()
	active = nil
}

// Threads are goroutines that are used again in later executions; handing them a body orders it
// after everything before, like a go statement.
type job struct {
	e    *Explorer
	i    int
	body func()
}

var workers [maxThreads]chan job

func work(jobs chan job) {
	for j := range jobs {
		j.e.run(j.i, j.body)
	}
}

// once runs the threads under the recorded schedule prefix and returns a failure or "".
func (e *Explorer) once(threads []func()) string {
	e.setup(len(threads))
	e.done.Add(len(threads))
	for i := range threads {
		if workers[i] == nil {
			workers[i] = make(chan job)
			go work(workers[i])
		}
		workers[i] <- job{e, i, threads[i]}
	}
	e.start()
	e.done.Wait()
	e.Executions++
	return e.fail
}

// next moves to the next unexplored schedule.
func (e *Explorer) next() bool {
	for e.depth > 0 {
		c := &e.stack[e.depth-1]
		if c.pick+1 < c.n {
			c.pick++
			return true
		}
		e.depth--
	}
	return false
}

// Schedule is the decisions of the current execution.
func (e *Explorer) Schedule() []int {
	out := make([]int, e.pos)
	for i := range out {
		out[i] = int(e.stack[i].pick)
	}
	return out
}

// Reset makes the explorer ready for another program.
func (e *Explorer) Reset(preemptions int) {
	e.PoolChoices = -1
	e.Preemptions, e.depth, e.pos, e.Executions, e.Points, e.Undetermined, e.fail = preemptions, 0, 0, 0, 0, false, ""
}

// Explore runs every schedule of the program that setup returns; after is called when its threads have ended.
// It returns the first failure with its schedule.
func (e *Explorer) Explore(limit int, setup func() (threads []func(), after func() string)) (msg string, complete bool) {
	if e.MaxSteps == 0 {
		e.MaxSteps = 5000
	}
	for {
		newEpoch()
		threads, after := setup()
		msg := e.once(threads)
		if e.Undetermined || msg == "" && e.pos < e.depth {
			// the number of decisions is not a function of the schedule
			e.Undetermined = true
			return "", false
		}
		if msg == "" && after != nil {
			msg = after()
		}
		if msg != "" {
			return fmt.Sprintf("%s\nunder schedule %v", msg, e.Schedule()), false
		}
		if !e.next() {
			return "", true
		}
		if limit > 0 && e.Executions >= limit || e.Stop != nil && e.Stop() {
			return "", false
		}
	}
}

// newEpoch unlocks all locks and empties all pools.
//
//go:norace
func newEpoch() { epoch++ }

// Yield is an extra scheduling point for user code (marshal methods, writers) called by the code under test.
//
//go:norace
func Yield() {
	if active != nil {
		active.point()
	}
}

// Failf ends the exploration with a violation; called by a thread.
func Failf(format string, a ...interface{}) { panic(fmt.Sprintf(format, a...)) }

// Current is the number of the running thread, or -1.
//
//go:norace
func Current() int {
	if active == nil {
		return -1
	}
	return active.cur
}

//go:norace
func yield() {
	if active != nil {
		active.point()
	}
}

//go:norace
func block(l *lockState, s threadState) bool {
	e := active
	if e == nil {
		return false
	}
	t := &e.threads[e.cur]
	t.state, t.lock = s, l
	e.point()
	return true
}

//go:norace
func wake(s threadState, l *lockState) {
	if e := active; e != nil {
		for i := 0; i < e.n; i++ {
			if t := &e.threads[i]; t.state == s && t.lock == l {
				t.state = runnable
			}
		}
	}
}

func addr(l *lockState) unsafe.Pointer { return unsafe.Pointer(l) }

// Clock is the number of scheduling points passed in the current execution.
//
//go:norace
func Clock() int {
	if active == nil {
		return -1
	}
	return active.steps
}
