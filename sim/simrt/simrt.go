// Package simrt is the deterministic scheduler of the simulation. Client tasks are
// goroutines of which exactly one runs at a time; every switch between them is
// decided by a Decider (a seeded PRNG, or a recorded list on replay).
//
// Library code reaches it through Y, which the instrumentation inserts before
// every statement of the packages under test.
package simrt

import (
	"math"
	"runtime"
)

// Decision is one recorded choice of the scheduler that differs from the default.
type Decision struct {
	PC int64  `json:"pc"`          // global step count at which it was taken
	N  int    `json:"n,omitempty"` // ordinal among choices at the same step
	To int    `json:"to"`          // task that continues
	K  string `json:"k,omitempty"` // p(reempt) or b(lock)
}

// Decider chooses the next task. Gap returns the number of steps until the next
// preemption opportunity.
type Decider interface {
	Gap(pc int64) int64
	Hot(pc int64) bool // preempt at a step that uses something shared
	Pick(pc int64, n int, kind byte, cur int, runnable []int) int
}

type Task struct {
	ID      int
	park    parker
	done    bool
	wakeAt  int64       // simulated ns, 0 = not sleeping
	cond    func() bool // blocked until it holds
	fn      func()
	limit   int64 // step at which the task is considered stalled
	budget  int64 // steps of the operation
	again   int   // how often they were granted again
	stalled int   // how often it was
	gone    bool  // by Goexit
	fin     chan struct{}
	outPC   int64 // step at which the task last lost the processor
	hold    int   // locks held that are not simulated
	mark    int64 // simulated lock operations when a lock call began
	owner   int   // the client on whose behalf it runs
	child   bool  // started by the code under test
	started bool
	timer   bool // sleeps for the code under test
	grace   int  // how often others were let run instead of calling it stalled
}

type Sched struct {
	Wall     int64 // how late it is when the run begins
	Tasks    []*Task
	dec      Decider
	cur      *Task
	now      int64
	lastPC   int64
	nAt      int
	main     parker
	deadlock bool
	after    int64 // scheduled point
	clients  int   // tasks that have to finish
	alive    int64 // simulated time at which a client last ran
	quiet    bool  // nobody is preempted until an operation ends or waits
	waiter   *Task // that made it quiet
	stuck    bool  // somebody stalled
	Early    bool  // timers can end while others could run: they took long
	EarlyN   int64
	checkAt  int64

	// Check is asked every CheckEvery steps whether the work grew out of bounds.
	Check      func() bool
	CheckEvery int64

	Switches  int64 // preemptions taken
	Blocks    int64
	Decisions []Decision
	SchedHash uint64
}

// Stall is the panic value raised inside a task that exceeded its step limit.
type Stall struct{ Steps int64 }

var (
	pc        int64
	nextPoint int64 = math.MaxInt64
	cur       *Sched
	offset    int64 // of the wall clock
)

// Steps returns the number of library steps taken since the last Reset.
//
//go:norace
func Steps() int64 { return pc }

// Started is the number of clients and goroutines of the run so far.
//
//go:norace
func Started() int {
	if cur == nil {
		return 0
	}
	return len(cur.Tasks)
}

// Y is a scheduling point.
//
//go:norace
func Y() {
	pc++
	if pc >= nextPoint {
		point()
	}
}

// H is a scheduling point at a step that uses something shared.
//
//go:norace
func H() {
	pc++
	if pc >= nextPoint {
		point()
	} else if s := cur; s != nil && s.cur != nil && s.dec.Hot(pc) {
		s.preempt()
	}
}

//go:norace
func point() {
	s := cur
	if s == nil {
		nextPoint = math.MaxInt64
		return
	}
	t := s.cur
	if t == nil {
		nextPoint = math.MaxInt64
		return
	}
	if s.Check != nil && pc >= s.checkAt {
		s.checkAt = pc + s.CheckEvery
		nextPoint = min(s.after, s.checkAt)
		if s.Check() {
			s.stall(t)
		}
		if pc < s.after {
			return
		}
	}
	if t.limit > 0 && pc >= t.limit {
		if t.grace < 20 && t.hold == 0 && !s.stuck {
			// it may be waiting, busily, for somebody else
			if o := s.other(t.grace); o != nil {
				t.grace++
				t.limit = pc + 100_000
				s.quiet, s.waiter = true, t
				s.switchTo(o)
				return
			}
		}
		if t.grace > 0 && t.again < 2 && !s.stuck {
			// it could have used up its steps with waiting
			t.again++
			t.limit = pc + t.budget
			s.arm()
			return
		}
		t.limit = pc + 20_000
		s.arm()
		s.stall(t)
	}
	s.preempt()
}

// stall ends what the task does. A library may recover from panics, so it has to
// be ended otherwise when that did not help.
//
//go:norace
func (s *Sched) stall(t *Task) {
	t.stalled++
	s.stuck = true
	if t.stalled > 2 {
		t.gone = true
		runtime.Goexit()
	}
	panic(Stall{pc})
}

// Active reports whether a simulation is running.
//
//go:norace
func Active() bool { return cur != nil && cur.cur != nil }

// Cur returns the scheduler of the running simulation.
//
//go:norace
func Cur() *Sched { return cur }

// CurTask returns the id of the running task or -1.
//
//go:norace
func CurTask() int {
	if cur == nil || cur.cur == nil {
		return -1
	}
	return cur.cur.owner
}

//go:norace
func New(d Decider) *Sched {
	s := &Sched{dec: d, now: 1_000_000_000}
	s.Tasks = make([]*Task, 0, 64)
	s.Decisions = make([]Decision, 0, 1<<14)
	return s
}

//go:norace
func (s *Sched) Add(fn func()) *Task {
	t := newTask(fn)
	t.ID, t.owner = len(s.Tasks), len(s.Tasks)
	s.Tasks = append(s.Tasks, t)
	return t
}

//go:norace
func newTask(fn func()) *Task {
	t := &Task{fn: fn, fin: make(chan struct{})}
	t.park.init()
	return t
}

// orphans are tasks that outlived the run that started them, such as workers that
// wait for more work. The next run goes on with them.
var orphans = make([]*Task, 0, 4096)

//go:norace
func (s *Sched) adopt() {
	s.clients = len(s.Tasks)
	for _, t := range orphans {
		t.ID, t.owner = len(s.Tasks), 0
		t.limit, t.stalled = 0, 0
		if t.wakeAt > 0 {
			t.wakeAt += s.now
		}
		s.Tasks = append(s.Tasks, t)
	}
	orphans = orphans[:0]
}

//go:norace
func (s *Sched) disown() {
	for _, t := range s.Tasks {
		if t.child && !t.done {
			if t.wakeAt > 0 {
				t.wakeAt = max(1, t.wakeAt-s.now)
			}
			orphans = append(orphans, t)
		}
	}
}

// over says whether every client has finished.
//
//go:norace
func (s *Sched) over() bool {
	for _, t := range s.Tasks[:s.clients] {
		if !t.done {
			return false
		}
	}
	return true
}

// Now returns the simulated time in nanoseconds.
//
//go:norace
func (s *Sched) Now() int64 { return s.now }

//go:norace
func (s *Sched) SetLimit(steps int64) {
	if s.cur == nil {
		return
	}
	if steps <= 0 {
		s.cur.limit = 0
		s.cur.stalled = 0
		s.cur.grace, s.cur.again = 0, 0
		if w := s.waiter; s.quiet && w != nil && w != s.cur && s.runnable(w) {
			// what it was waiting for can be free now
			s.quiet, s.waiter = false, nil
			if w.again < 2 {
				w.again++
				w.limit += w.budget
			}
			s.switchTo(w)
			return
		}
		s.quiet = false
	} else {
		s.cur.limit, s.cur.budget = pc+steps, steps
	}
	s.arm()
}

// Stalled says whether the running task went over its limit.
//
//go:norace
func (s *Sched) Stalled() bool { return s.cur != nil && s.cur.stalled > 0 }

//go:norace
func (s *Sched) arm() {
	g := s.dec.Gap(pc)
	n := pc + g
	if g == math.MaxInt64 || n < pc {
		n = math.MaxInt64
	}
	if s.cur != nil && s.cur.limit > 0 && s.cur.limit < n {
		n = s.cur.limit
	}
	s.after = n
	if s.Check != nil {
		n = min(n, s.checkAt)
	}
	nextPoint = n
}

// Run executes all tasks to completion, those started by the code under test until
// they wait for something. It returns false on deadlock.
//
//go:norace
func (s *Sched) Run() bool {
	pc = 0
	offset = s.Wall
	cur = s
	s.main.init()
	s.adopt()
	s.alive = s.now
	for _, t := range s.Tasks {
		s.start(t)
	}
	first := s.pickBlocked()
	if first != nil {
		s.cur = first
		s.arm()
		first.park.wake()
		s.main.wait()
	}
	s.cur = nil
	cur = nil
	nextPoint = math.MaxInt64
	s.disown()
	for _, t := range s.Tasks {
		if t.done {
			<-t.fin
		}
	}
	return !s.deadlock
}

//go:norace
func (s *Sched) start(t *Task) {
	if !t.started {
		t.started = true
		go t.main()
	}
}

//go:norace
func (t *Task) main() {
	t.park.wait()
	ok := false
	defer func() {
		if !ok && t.child && t.stalled > 0 {
			if _, is := recover().(Stall); is {
				ok = true
				cur.Tasks[t.owner].stalled++
			}
		}
		if ok || t.gone {
			close(t.fin) // what the task did happens before Run returns
			t.done = true
			cur.next()
		}
	}()
	t.fn()
	ok = true
}

// Go starts another task from inside a task.
//
//go:norace
func Go(fn func()) {
	s := cur
	if s == nil || s.cur == nil {
		t := newTask(fn)
		t.child = true
		orphans = append(orphans, t)
		return
	}
	t := s.Add(fn)
	t.child, t.owner = true, s.cur.owner
	t.limit, t.outPC = s.cur.limit, pc
	s.start(t)
}

//go:norace
func (s *Sched) runnable(t *Task) bool {
	if t.done {
		return false
	}
	if t.wakeAt > s.now {
		return false
	}
	if t.cond != nil && !t.cond() {
		return false
	}
	return true
}

//go:norace
func (s *Sched) list() []int {
	var r []int
	for _, t := range s.Tasks {
		if s.runnable(t) {
			r = append(r, t.ID)
		}
	}
	return r
}

//go:norace
func (s *Sched) pick(kind byte) *Task {
	r := s.list()
	if len(r) == 0 {
		return nil
	}
	if s.Early {
		for _, t := range s.Tasks {
			if !t.done && t.timer && t.wakeAt > s.now {
				r = append(r, t.ID)
			}
		}
	}
	if pc == s.lastPC {
		s.nAt++
	} else {
		s.lastPC, s.nAt = pc, 0
	}
	c := -1
	if s.cur != nil {
		c = s.cur.ID
	}
	def := r[0]
	if kind == 'p' {
		def = c
	}
	ch := s.dec.Pick(pc, s.nAt, kind, c, r)
	ok := false
	for _, x := range r {
		if x == ch {
			ok = true
		}
	}
	if !ok {
		ch = def
	}
	if ch != def && len(s.Decisions) < cap(s.Decisions) {
		s.Decisions = append(s.Decisions, Decision{PC: pc, N: s.nAt, To: ch, K: string(kind)})
	}
	s.SchedHash = (s.SchedHash ^ uint64(pc)*0x9E3779B97F4A7C15 ^ uint64(ch+1)) * 0x100000001b3
	return s.Tasks[ch]
}

// pickBlocked picks the next task when the current one cannot continue, moving
// the simulated clock forward when everybody sleeps. There is none when every client
// has finished and the others wait, or when no client has anything to wait for.
//
//go:norace
func (s *Sched) pickBlocked() *Task {
	for {
		if t := s.pick('b'); t != nil {
			return t
		}
		var min int64 = math.MaxInt64
		for _, t := range s.Tasks {
			if !t.done && t.wakeAt > s.now && t.wakeAt < min {
				min = t.wakeAt
			}
		}
		if min == math.MaxInt64 || s.over() || min-s.alive > maxIdle {
			return nil
		}
		s.now = min
	}
}

// maxIdle is the simulated time for which no client may run.
const maxIdle = 7 * 24 * 3600 * 1_000_000_000

// end ends the run: nobody can go on.
//
//go:norace
func (s *Sched) end() {
	s.deadlock = !s.over()
	s.main.wake()
}

// next hands over after the current task finished.
//
//go:norace
func (s *Sched) next() {
	t := s.pickBlocked()
	if t == nil {
		s.end()
		return
	}
	s.resume(t)
	s.arm()
	t.park.wake()
}

//go:norace
func (s *Sched) resume(t *Task) {
	s.cur = t
	if t.wakeAt > s.now {
		s.now = t.wakeAt
		s.EarlyN++
	}
	t.wakeAt, t.cond, t.timer = 0, nil, false
	if !t.child {
		s.alive = s.now
	}
	if t.limit > 0 {
		t.limit += pc - t.outPC
	}
}

//go:norace
func (s *Sched) preempt() {
	if s.cur.hold > 0 || s.quiet {
		// somebody who really waits for that lock would never give way
		s.arm()
		return
	}
	t := s.pick('p')
	if t == nil || t == s.cur {
		s.arm()
		return
	}
	s.Switches++
	s.switchTo(t)
}

//go:norace
func (s *Sched) switchTo(t *Task) {
	me := s.cur
	if t != me {
		me.outPC = pc
		s.resume(t)
		s.arm()
		t.park.wake()
		me.park.wait()
	} else {
		s.now = max(s.now, t.wakeAt)
		t.wakeAt, t.cond, t.timer = 0, nil, false
		s.arm()
	}
}

// other returns the runnable task that follows the current one.
//
//go:norace
func (s *Sched) other(skip int) *Task {
	n := len(s.Tasks)
	for i := 0; i < n-1; i++ {
		if t := s.Tasks[(s.cur.ID+1+(i+skip)%(n-1))%n]; s.runnable(t) {
			return t
		}
	}
	return nil
}

// Yield lets another task run, like runtime.Gosched.
//
//go:norace
func Yield(func()) {
	s := cur
	if s == nil || s.cur == nil || s.cur.hold > 0 {
		return
	}
	pc++
	if t := s.other(0); t != nil {
		s.switchTo(t)
	}
}

var lockOps int64

// LockOp is called by the simulated locks.
//
//go:norace
func LockOp() { lockOps++ }

// LockBegin, Locked and Unlocked bracket calls that lock or unlock something.
//
//go:norace
func LockBegin() {
	if s := cur; s != nil && s.cur != nil {
		s.cur.mark = lockOps
	}
}

//go:norace
func Locked() {
	if s := cur; s != nil && s.cur != nil && s.cur.mark == lockOps {
		s.cur.hold++
	}
}

//go:norace
func Unlocked() {
	if s := cur; s != nil && s.cur != nil && s.cur.mark == lockOps && s.cur.hold > 0 {
		s.cur.hold--
	}
}

// Held is the number of locks not simulated that the current task seems to hold.
//
//go:norace
func Held() int {
	if s := cur; s != nil && s.cur != nil {
		return s.cur.hold
	}
	return 0
}

// Point is an explicit scheduling opportunity (a seam such as a driver call).
//
//go:norace
func Point() {
	s := cur
	if s == nil || s.cur == nil {
		return
	}
	pc++
	s.preempt()
}

// Block parks the current task until cond holds.
//
//go:norace
func Block(cond func() bool) {
	s := cur
	if s == nil || s.cur == nil {
		blockOutside(cond)
		return
	}
	pc++
	s.Blocks++
	s.cur.cond = cond
	s.wait()
}

// wait hands over until the current task can go on.
//
//go:norace
func (s *Sched) wait() {
	me := s.cur
	s.quiet = false
	t := s.pickBlocked()
	if t != nil {
		s.switchTo(t)
		return
	}
	s.end()
	if !me.child {
		select {} // the run is abandoned
	}
	me.park.wait() // until another run goes on with it
}

// blockOutside waits, outside a simulation, for tasks started there.
//
//go:norace
func blockOutside(cond func() bool) {
	if cond() {
		return
	}
	s := New(first{})
	me := s.Add(nil)
	me.started = true
	s.main.init()
	s.adopt()
	cur, s.cur = s, me
	for _, t := range s.Tasks {
		s.start(t)
	}
	me.cond = cond
	t := s.pickBlocked()
	if t == nil {
		panic("simrt: blocked for ever outside a simulation")
	}
	s.switchTo(t)
	s.cur, cur = nil, nil
	s.disown()
}

// Solo performs a call outside a simulation with nobody else but tasks left over from
// one. It says whether the call returned within the number of steps.
//
//go:norace
func Solo(steps int64, fn func()) bool {
	if cur != nil {
		fn()
		return true
	}
	was, wasOff := pc, offset
	s := New(first{})
	t := s.Add(func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(Stall); !ok {
					panic(r)
				}
			}
		}()
		s.SetLimit(steps)
		fn()
	})
	ok := s.Run()
	pc, offset = was, wasOff
	return ok && t.stalled == 0
}

// first never preempts.
type first struct{}

func (first) Gap(int64) int64                       { return math.MaxInt64 }
func (first) Hot(int64) bool                        { return false }
func (first) Pick(int64, int, byte, int, []int) int { return -1 }

// Sleep advances simulated time for the current task.
//
//go:norace
func Sleep(ns int64) {
	s := cur
	if s == nil || s.cur == nil || ns <= 0 {
		return
	}
	pc++
	s.cur.wakeAt = s.now + ns
	s.wait()
}

// maxSlow is how long others can keep a caller from running.
const maxSlow = 2_000_000_000

// SleepTimer is the Sleep of a timer of the code under test.
//
//go:norace
func SleepTimer(ns int64) {
	if s := cur; s != nil && s.cur != nil {
		s.cur.timer = ns <= maxSlow
	}
	Sleep(ns)
}

// WallNow is the wall clock seen by the code under test.
//
//go:norace
func WallNow() int64 {
	if cur == nil {
		return 1_700_000_000_000_000_000
	}
	return 1_700_000_000_000_000_000 + cur.now + offset
}
