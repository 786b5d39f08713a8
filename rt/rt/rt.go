// Package rt is the simulator's runtime: a seeded cooperative scheduler for
// real goroutines, a simulated clock, a seeded random source, and step
// budgets. The code under test reaches it through the packages ssync,
// satomic, stime and srand (drop-in stand-ins for sync, sync/atomic, time and
// math/rand) and through yield points that the instrumenter inserts.
//
// At most one task runs at any time. Every decision about who runs next is a
// pure function of the Schedule. In race builds the hand-over of the baton is
// hidden from the race detector, so that it sees only the synchronisation the
// code under test performs itself.
package rt

import (
	"fmt"
	"runtime"
	"strings"
	"unsafe"
)

const (
	maxTasks    = 16
	maxSwitches = 1 << 14
)

// Strategy kinds.
const (
	StratRandom   = 0 // at each yield, switch with probability P/1024
	StratPCT      = 1 // priorities with Depth change points in Horizon steps
	StratSites    = 2 // switch (prob P/1024) only at a salted 1/Depth subset of sites
	StratRR       = 3 // round robin with quantum Depth
	StratExplicit = 4 // follow Switches exactly; otherwise keep running the current task
)

// Switch is one recorded scheduling decision: at yield point Step run task To.
type Switch struct {
	Step int64 `json:"s"`
	To   int32 `json:"t"`
}

// Stall suspends a task at a yield point for a number of steps (-1: until no
// other task can run; -2: for ever).
type Stall struct {
	Task int32 `json:"task"`
	Step int64 `json:"step"` // counted in the task's own yield points
	For  int64 `json:"for"`
}

// Schedule determines an interleaving completely.
type Schedule struct {
	Strategy int      `json:"strategy"`
	Seed     uint64   `json:"seed"`
	P        int64    `json:"p"`
	Depth    int64    `json:"depth"`
	Horizon  int64    `json:"horizon"`
	Stalls   []Stall  `json:"stalls,omitempty"`
	Switches []Switch `json:"switches,omitempty"`
	TickNs   int64    `json:"tick_ns"` // simulated time per yield point
}

const (
	stRunnable = iota
	stBlocked
	stStalled
	stSleeping
	stDone
)

type task struct {
	id       int32
	gate     chan struct{}
	state    uint8
	wait     unsafe.Pointer
	wakeAt   int64 // steps for stalls, ns for sleeps
	prio     uint64
	ownSteps int64
	fn       func()
	panicked any
	stack    string
	dead     bool // for ever stalled
}

// Abort is panicked through tasks to unwind a run.
type Abort struct{ Why string }

func (a *Abort) Error() string { return "simulation aborted: " + a.Why }

var (
	active   bool
	aborting bool
	abortWhy string
	cur      *task
	tasks    [maxTasks]*task
	ntasks   int
	steps    int64
	limit    int64 = 1 << 62
	yields   int64
	sched    Schedule
	rngState uint64
	trace    [maxSwitches]Switch
	ntrace   int
	ihash    uint64
	done     chan struct{}
	joinTok  int64
	chg      [64]int64
	nchg     int
	stallHit [maxTasks]int
	swIdx    int
	rrLeft   int64

	monoNs int64
	wallNs int64 // offset of the wall clock
	tickNs int64

	lockStalls int64
)

//go:norace
func rnd() uint64 {
	rngState += 0x9e3779b97f4a7c15
	z := rngState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Y is a yield point.
//
//go:norace
func Y(site int32) {
	steps++
	if steps > limit {
		overrun()
	}
	if active {
		yieldPoint(site)
	}
}

// L is a loop head: it only counts.
//
//go:norace
func L() {
	steps++
	if steps > limit {
		overrun()
	}
}

//go:norace
func overrun() {
	if active {
		aborting = true
		if abortWhy == "" {
			abortWhy = "step budget exhausted (no progress)"
		}
	}
	panic(&Abort{"step budget exhausted (no progress)"})
}

// Active reports whether a simulated multi-task run is in progress.
//
//go:norace
func Active() bool { return active && !aborting }

//go:norace
func runnable(t *task) bool { return t.state == stRunnable }

//go:norace
func wakeStalled() {
	for i := 0; i < ntasks; i++ {
		t := tasks[i]
		if t.state == stStalled && t.wakeAt >= 0 && yields >= t.wakeAt {
			t.state = stRunnable
		} else if t.state == stSleeping && monoNs >= t.wakeAt {
			t.state = stRunnable
		}
	}
}

//go:norace
func countRunnable() int {
	n := 0
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stRunnable {
			n++
		}
	}
	return n
}

//go:norace
func nthRunnable(k int) *task {
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stRunnable {
			if k == 0 {
				return tasks[i]
			}
			k--
		}
	}
	return nil
}

// pick chooses the next task. cur may be not runnable (forced).
//
//go:norace
func pick(site int32) *task {
	wakeStalled()
	n := countRunnable()
	for n == 0 {
		// Jump the clock to the next sleeper; else release bounded stalls.
		var best *task
		for i := 0; i < ntasks; i++ {
			t := tasks[i]
			if t.state == stSleeping && (best == nil || t.wakeAt < best.wakeAt) {
				best = t
			}
		}
		if best != nil {
			if best.wakeAt > monoNs {
				monoNs = best.wakeAt
			}
			best.state = stRunnable
			n = 1
			break
		}
		rel := false
		for i := 0; i < ntasks; i++ {
			t := tasks[i]
			if t.state == stStalled && !t.dead {
				t.state = stRunnable
				rel = true
			}
		}
		if !rel {
			return nil
		}
		n = countRunnable()
	}
	def := cur
	if def == nil || def.state != stRunnable {
		def = nil
	}
	switch sched.Strategy {
	case StratExplicit:
		for swIdx < len(sched.Switches) && sched.Switches[swIdx].Step < yields {
			swIdx++
		}
		if swIdx < len(sched.Switches) && sched.Switches[swIdx].Step == yields {
			to := sched.Switches[swIdx].To
			swIdx++
			if int(to) < ntasks && tasks[to].state == stRunnable {
				return tasks[to]
			}
		}
		if def != nil {
			return def
		}
		return nthRunnable(0)
	case StratPCT:
		for i := 0; i < nchg; i++ {
			if chg[i] == yields && cur != nil {
				cur.prio = uint64(i) // lower than all initial priorities
			}
		}
		var best *task
		for i := 0; i < ntasks; i++ {
			t := tasks[i]
			if t.state == stRunnable && (best == nil || t.prio > best.prio) {
				best = t
			}
		}
		return best
	case StratRR:
		if def != nil {
			rrLeft--
			if rrLeft > 0 {
				return def
			}
		}
		rrLeft = 1 + int64(rnd()%uint64(sched.Depth+1))
		start := 0
		if cur != nil {
			start = int(cur.id) + 1
		}
		for i := 0; i < ntasks; i++ {
			t := tasks[(start+i)%ntasks]
			if t.state == stRunnable {
				return t
			}
		}
		return nil
	case StratSites:
		if def != nil {
			h := (uint64(uint32(site)) + sched.Seed) * 0x9e3779b97f4a7c15
			h ^= h >> 29
			d := uint64(sched.Depth)
			if d == 0 {
				d = 1
			}
			if h%d != 0 || int64(rnd()&1023) >= sched.P {
				return def
			}
		}
		return nthRunnable(int(rnd() % uint64(n)))
	default:
		if def != nil && int64(rnd()&1023) >= sched.P {
			return def
		}
		return nthRunnable(int(rnd() % uint64(n)))
	}
}

//go:norace
func yieldPoint(site int32) {
	if aborting {
		panic(&Abort{abortWhy})
	}
	yields++
	monoNs += tickNs
	me := cur
	me.ownSteps++
	for i := 0; i < len(sched.Stalls); i++ {
		s := &sched.Stalls[i]
		if s.Task == me.id && s.Step == me.ownSteps {
			stallHit[me.id]++
			if s.For == -2 {
				me.state = stStalled
				me.wakeAt = -1
				me.dead = true
			} else if s.For == -1 {
				me.state = stStalled
				me.wakeAt = -1
			} else {
				me.state = stStalled
				me.wakeAt = yields + s.For
			}
		}
	}
	reschedule(site)
}

// reschedule hands the baton to the task the schedule chooses; returns when
// the calling task is scheduled again.
//
//go:norace
func reschedule(site int32) {
	me := cur
	t := pick(site)
	if t == nil {
		// Nothing can run: everything is blocked or dead.
		deadlock()
		return
	}
	if t == me {
		return
	}
	record(t, site)
	cur = t
	raceDisable()
	t.gate <- struct{}{}
	<-me.gate
	raceEnable()
	if aborting {
		panic(&Abort{abortWhy})
	}
}

//go:norace
func record(t *task, site int32) {
	if ntrace < maxSwitches {
		trace[ntrace] = Switch{yields, t.id}
		ntrace++
	}
	ihash = (ihash ^ (uint64(uint32(site))<<8 | uint64(t.id))) * 0x100000001b3
	ihash ^= ihash >> 31
}

//go:norace
func deadlock() {
	allDead := true
	for i := 0; i < ntasks; i++ {
		t := tasks[i]
		if t.state == stDone || t.dead {
			continue
		}
		allDead = false
	}
	aborting = true
	if allDead {
		abortWhy = "stalled-forever"
	} else {
		abortWhy = "deadlock: no task can run"
	}
	panic(&Abort{abortWhy})
}

// Block parks the current task until Wake(p) is called with the same token.
//
//go:norace
func Block(p unsafe.Pointer, site int32) {
	if !active {
		panic("deadlock: blocking operation can never be satisfied")
	}
	if aborting {
		panic(&Abort{abortWhy})
	}
	yields++
	monoNs += tickNs
	cur.state = stBlocked
	cur.wait = p
	lockStalls++
	reschedule(site)
}

// Wake makes every task blocked on p runnable.
//
//go:norace
func Wake(p unsafe.Pointer) {
	if !active {
		return
	}
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stBlocked && tasks[i].wait == p {
			tasks[i].state = stRunnable
			tasks[i].wait = nil
		}
	}
}

// Sleep advances simulated time for the current task.
//
//go:norace
func Sleep(ns int64) {
	if !active || aborting {
		monoNs += ns
		return
	}
	yields++
	cur.state = stSleeping
	cur.wakeAt = monoNs + ns
	reschedule(-7)
}

// CurTask is the running task's id, or -1.
//
//go:norace
func CurTask() int {
	if !active || cur == nil {
		return -1
	}
	return int(cur.id)
}

// Seq is the global event sequence number.
//
//go:norace
func Seq() int64 { yields++; return yields }

// Mono and Wall are the simulated clocks in nanoseconds.
//
//go:norace
func Mono() int64 { return monoNs }

//go:norace
func Wall() int64 { return monoNs + wallNs }

//go:norace
func Advance(ns int64) { monoNs += ns }

//go:norace
func JumpWall(ns int64) { wallNs += ns }

// Result describes one multi-task run.
type Result struct {
	Aborted   string // "" or the reason
	Panics    []string
	Yields    int64
	Switches  []Switch
	Truncated bool
	Hash      uint64
	Stalled   []int // how often each task was stalled by a fault
	Blocked   int64
	DeadLeft  bool // at least one task was suspended for ever
	Done      []bool
}

// Run executes the tasks under the schedule and returns when all have ended.
func Run(s Schedule, budget int64, fns ...func()) Result {
	if len(fns) > maxTasks {
		panic("too many tasks")
	}
	setup(s, budget, fns)
	ts := make([]*task, len(fns))
	for i := range fns {
		ts[i] = tasks[i]
	}
	for _, t := range ts {
		go taskMain(t)
	}
	start()
	<-done
	RaceAcquire(unsafe.Pointer(&joinTok))
	return finish()
}

//go:norace
func setup(s Schedule, budget int64, fns []func()) {
	sched = s
	rngState = s.Seed ^ 0xa5a5a5a5deadbeef
	ntasks = len(fns)
	for i := range fns {
		tasks[i] = &task{id: int32(i), gate: make(chan struct{}), fn: fns[i]}
		stallHit[i] = 0
	}
	ntrace, yields, ihash, swIdx, rrLeft, lockStalls = 0, 0, 0xcbf29ce484222325, 0, 0, 0
	aborting, abortWhy = false, ""
	steps = 0
	limit = budget
	tickNs = s.TickNs
	nchg = 0
	if s.Strategy == StratPCT {
		for i := 0; i < ntasks; i++ {
			tasks[i].prio = 1000 + rnd()%1000000
		}
		h := s.Horizon
		if h < 1 {
			h = 1
		}
		for i := int64(0); i < s.Depth && nchg < len(chg); i++ {
			chg[nchg] = 1 + int64(rnd()%uint64(h))
			nchg++
		}
	}
	done = make(chan struct{})
	cur = nil
	active = true
}

//go:norace
func start() {
	t := pick(0)
	record(t, 0)
	cur = t
	raceDisable()
	t.gate <- struct{}{}
	raceEnable()
}

//go:norace
func finish() Result {
	active = false
	limit = 1 << 62
	r := Result{Aborted: abortWhy, Yields: yields, Hash: ihash, Blocked: lockStalls}
	for i := 0; i < ntasks; i++ {
		t := tasks[i]
		r.Stalled = append(r.Stalled, stallHit[i])
		if t.dead {
			r.DeadLeft = true
		}
		r.Done = append(r.Done, t.state == stDone && !aborted(t))
		if t.panicked != nil {
			if _, ok := t.panicked.(*Abort); !ok {
				r.Panics = append(r.Panics, fmt.Sprintf("task %d: %v\n%s", i, t.panicked, t.stack))
			}
		}
	}
	if abortWhy == "stalled-forever" {
		r.Aborted = ""
	}
	r.Truncated = ntrace >= maxSwitches
	r.Switches = make([]Switch, ntrace)
	for i := 0; i < ntrace; i++ {
		r.Switches[i] = trace[i]
	}
	cur = nil
	return r
}

//go:norace
func aborted(t *task) bool {
	_, ok := t.panicked.(*Abort)
	return ok
}

//go:norace
func taskMain(t *task) {
	raceDisable()
	<-t.gate
	raceEnable()
	runBody(t)
	RaceReleaseMerge(unsafe.Pointer(&joinTok))
	t.state = stDone
	// Hand over.
	raceDisable()
	var next *task
	if aborting {
		for i := 0; i < ntasks; i++ {
			if tasks[i].state != stDone {
				next = tasks[i]
				break
			}
		}
	} else {
		next = pick(-1)
		if next == nil {
			for i := 0; i < ntasks; i++ {
				if tasks[i].state != stDone {
					next = tasks[i]
					break
				}
			}
			if next != nil {
				// Left-over tasks are blocked or dead.
				aborting = true
				abortWhy = "stalled-forever"
				for i := 0; i < ntasks; i++ {
					if tasks[i].state != stDone && !tasks[i].dead {
						abortWhy = "deadlock: no task can run"
					}
				}
			}
		}
	}
	if next != nil {
		yields++
		record(next, -1)
		cur = next
		next.gate <- struct{}{}
	} else {
		close(done)
	}
	raceEnable()
}

//go:norace
func runBody(t *task) {
	defer func() {
		if r := recover(); r != nil {
			t.panicked = r
			t.stack = Stack()
		}
	}()
	if aborting {
		panic(&Abort{abortWhy})
	}
	t.fn()
}

// Stack returns a short stack of the panicking code.
func Stack() string {
	var pcs [40]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	var b strings.Builder
	k := 0
	for {
		f, more := fr.Next()
		if !strings.HasPrefix(f.Function, "runtime.") && !strings.HasPrefix(f.Function, "vstrt/rt.") {
			fn := f.File
			if i := strings.LastIndex(fn, "/pkg/"); i >= 0 {
				fn = fn[i+1:]
			} else if i := strings.LastIndex(fn, "/"); i >= 0 {
				fn = fn[i+1:]
			}
			fmt.Fprintf(&b, "  %s %s:%d\n", f.Function[strings.LastIndex(f.Function, "/")+1:], fn, f.Line)
			k++
		}
		if !more || k >= 10 {
			break
		}
	}
	return b.String()
}

// Solo runs fn outside the scheduler with a step budget; it returns "" or a
// description of the panic or overrun.
func Solo(budget int64, fn func()) (failure string, stack string) {
	steps = 0
	limit = budget
	defer func() {
		limit = 1 << 62
		if r := recover(); r != nil {
			if a, ok := r.(*Abort); ok {
				failure = a.Why
			} else {
				failure = fmt.Sprintf("panic: %v", r)
			}
			stack = Stack()
		}
	}()
	fn()
	return "", ""
}

// SetSolo (re)arms the step budget outside a multi-task run.
//
//go:norace
func SetSolo(budget int64) { steps = 0; limit = budget }

// Steps returns the steps counted since the last (re)arm.
//
//go:norace
func Steps() int64 { return steps }

// BeginRun resets everything that could leak from one run into the next.
func BeginRun(seed uint64) {
	active, aborting, abortWhy, cur = false, false, "", nil
	limit = 1 << 62
	steps = 0
	monoNs = 1_000_000_000
	wallNs = 1_700_000_000_000_000_000
	libRand = seed ^ 0x5bd1e995cafef00d
	restoreGlobals()
	for _, f := range onReset {
		f(seed)
	}
}

var onReset []func(seed uint64)

// OnReset registers a hook run at the start of every run.
func OnReset(f func(seed uint64)) { onReset = append(onReset, f) }

var libRand uint64

// LibRand is the seeded stream for library stand-ins (sync.Pool, ...).
//
//go:norace
func LibRand() uint64 {
	libRand += 0x9e3779b97f4a7c15
	z := libRand
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Aborting reports whether the run is being unwound.
//
//go:norace
func Aborting() bool { return aborting }

// YU is a yield point after an unlock: it never panics while unwinding.
//
//go:norace
func YU(site int32) {
	if aborting {
		return
	}
	Y(site)
}
