// Package sim is a deterministic simulator for Go code whose goroutines, channel
// operations, synchronization, clocks, random sources and system calls have been
// redirected to it by cmd/instrument.
//
// Tasks are real goroutines of which exactly one is ever released; at every
// intercepted operation the simulator decides, from recorded choice streams, which
// task runs next, how much simulated time passes and which faults strike.
package sim

import (
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"unsafe"
)

const (
	stRunnable = iota
	stBlocked
	stIdle // waits until nothing else can run
	stDone
)

type Task struct {
	ID      int
	Name    string
	Why     string // what it is blocked on
	wake    chan struct{}
	exited  chan struct{}
	state   int
	prio    uint64
	run     int // consecutive steps
	joiners []*Task
	dormant bool // armed timer function that has not fired
	stalled bool
	w       *World
}

// eternity is an instant no run reaches; timers set beyond it never fire.
const eternity = 1 << 60

type timer struct {
	when int64
	seq  uint64
	fn   func()
	pos  int // heap index, -1 when not queued
}

type Config struct {
	Strategy  int // 0 uniform, 1 sticky, 2 PCT, 3 round robin
	SwitchP   int // sticky: switch probability, 1/10000
	StepCost  int64
	FaultP    int // probability of a scheduling fault per step, 1/10000
	StallW    int // relative weights of the faults
	LeapW     int
	JumpW     int
	StallMax  int64
	JumpMax   int64
	ChangePts int // PCT priority change points
	PoolMode  int // simsync.Pool behaviour
	RandSeed  uint64
	SoftSteps int // after this many steps scheduling becomes fair and faults stop
	MaxSteps  int
	MaxTicks  int64
	WallBase  int64 // unix ns at start
}

type Verdict struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type World struct {
	Cfg      Config
	S, F     *Stream
	Rand     *RNG // randomness of the code under test
	tasks    []*Task
	runnable []*Task
	cur      *Task
	now      int64
	wallOff  int64
	timers   []*timer
	tseq     uint64
	steps    int
	ticks    int64
	switches int
	preempts int
	fair     bool
	calm     int
	nosched  int
	changeAt []int
	done     chan struct{}
	ended    bool
	killing  bool
	killN    int
	verdict  *Verdict
	fp       uint64
	loghash  uint64
	chans    chanTable
	Faults   Counts
	Probes   Counts
	trace    []string
	longer   int
	Tracing  bool
	Local    Assoc    // seam state (signals, file system, ...)
	leaps    int64    // simulated ns skipped by faults
	stalls   int      // tasks currently stalled by a fault
	stallNs  int64    // longest stall injected so far
	frozen   bool     // steps take no time
	OnGC     []func() // run by simulated garbage collections
}

var active *World

// Progress is a counter the process watchdog reads.
var Progress atomic.Int64

// RaceReport describes the race reports made since it was last called, and says
// whether any of them is about memory of the code under test.
var RaceReport func() (msg string, real bool)

// Active returns the running world or nil.
func Active() *World { return active }

type Result struct {
	Verdict  *Verdict
	Steps    int
	Switches int
	Preempts int
	SimTime  int64
	FP       uint64
	LogHash  uint64
	Faults   map[string]int
	Probes   map[string]int
	Trace    []string
	Tasks    int
}

// Run executes main as the first task of a fresh world and returns when main has
// returned or the run was cut short by a verdict.
func Run(cfg Config, s, f *Stream, tracing bool, main func()) *Result {
	if active != nil {
		panic("sim: nested run")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 200000
	}
	if cfg.SoftSteps == 0 {
		cfg.SoftSteps = 20000
	}
	if cfg.MaxTicks == 0 {
		cfg.MaxTicks = 20_000_000
	}
	if cfg.WallBase == 0 {
		cfg.WallBase = 1_700_000_000_000_000_000
	}
	w := &World{Cfg: cfg, S: s, F: f, Rand: NewRNG(cfg.RandSeed), done: make(chan struct{}, 1),
		fp: 14695981039346656037, loghash: 14695981039346656037, Tracing: tracing}
	if cfg.Strategy == 2 {
		for i := 0; i < cfg.ChangePts; i++ {
			w.changeAt = append(w.changeAt, 1+s.rngPeek(400))
		}
	}
	races := RaceErrors()
	active = w
	t := w.newTask("main", main)
	w.cur = t
	t.wake <- struct{}{}
	<-w.done
	// Unwind whatever is left.
	w.killing = true
	for i := 0; i < len(w.tasks); i++ {
		t := w.tasks[i]
		if t.state == stDone {
			continue
		}
		w.killN = 0
		w.cur = t
		t.wake <- struct{}{}
		<-t.exited
	}
	active = nil
	for _, t := range w.tasks {
		RaceAcquire(unsafe.Pointer(t))
	}
	if RaceErrors() > races {
		msg := "unsynchronized access to shared memory"
		real := true
		if RaceReport != nil {
			msg, real = RaceReport()
		}
		if !real {
			w.Probes.Add("harness-race", 1)
		} else if w.verdict == nil {
			w.verdict = &Verdict{Class: "data-race", Msg: msg}
		}
	}
	return &Result{Verdict: w.verdict, Steps: w.steps, Switches: w.switches, Preempts: w.preempts, SimTime: w.now,
		FP: w.fp, LogHash: w.loghash, Faults: w.Faults.Map(), Probes: w.Probes.Map(), Trace: w.trace, Tasks: len(w.tasks)}
}

// rngPeek draws from the generator without recording: only strategies use it.
func (s *Stream) rngPeek(n int) int {
	if s.replay {
		return 0
	}
	return s.rng.Intn(n)
}

func (w *World) newTask(name string, fn func()) *Task {
	t := &Task{ID: len(w.tasks), Name: name, wake: make(chan struct{}, 1), exited: make(chan struct{}), w: w, state: stRunnable}
	if w.Cfg.Strategy == 2 && !w.S.replay {
		t.prio = w.S.rng.Uint64()>>1 | 1<<40
	}
	w.tasks = append(w.tasks, t)
	w.runnable = append(w.runnable, t)
	go t.body(fn)
	return t
}

func (t *Task) body(fn func()) {
	w := t.w
	normal := false
	defer func() {
		if !normal {
			if r := recover(); r != nil && !w.killing && !w.ended {
				w.end("crash", Sprintf("task %s panicked: %v\n%s", t.Name, r, trimStack(debug.Stack())))
			}
		}
		t.state = stDone
		w.unrun(t)
		RaceReleaseMerge(unsafe.Pointer(t))
		for _, j := range t.joiners {
			w.ready(j)
		}
		t.joiners = nil
		raceDisable()
		if w.killing || w.ended {
			if w.ended && !w.killing {
				// this task ended the run itself; let the controller unwind the others
				w.notify()
			}
			close(t.exited)
			raceEnable()
			return
		}
		close(t.exited)
		raceEnable()
		if t.ID == 0 {
			w.ended = true
			w.notify()
			return
		}
		w.next(t, true)
	}()
	raceDisable()
	<-t.wake
	raceEnable()
	if w.killing {
		normal = true
		return
	}
	fn()
	normal = true
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		if strings.Contains(l, "/sim.") || strings.HasPrefix(l, "runtime/debug") || strings.HasPrefix(l, "panic(") {
			continue
		}
		if k := strings.LastIndex(l, "("); k > 0 {
			l = l[:k]
		}
		out = append(out, "  "+l)
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (w *World) notify() {
	raceDisable()
	select {
	case w.done <- struct{}{}:
	default:
	}
	raceEnable()
}

// end records the verdict (first one wins) and stops the run; it does not return
// to library code: the calling task parks until unwound.
func (w *World) end(class, msg string) {
	if w.verdict == nil {
		w.verdict = &Verdict{class, msg}
	}
	w.ended = true
}

func (w *World) stopHere() {
	// called on the running task after end(): hand control to the controller
	t := w.cur
	t.state = stBlocked
	w.notify()
	t.await()
}

// await parks the goroutine until it is released; it exits the goroutine if the
// world is being unwound.
func (t *Task) await() {
	raceDisable()
	<-t.wake
	raceEnable()
	if t.w.killing {
		runtime.Goexit()
	}
}

func (w *World) unrun(t *Task) {
	for i, x := range w.runnable {
		if x == t {
			w.runnable = Remove(w.runnable, i)
			return
		}
	}
}

func (w *World) ready(t *Task) {
	if t.stalled || t.state != stBlocked && t.state != stIdle {
		return // stalled tasks re-check their condition when the stall ends
	}
	t.state = stRunnable
	t.Why = ""
	// keep ordered by ID
	i := 0
	for i < len(w.runnable) && w.runnable[i].ID < t.ID {
		i++
	}
	w.runnable = Insert(w.runnable, i, t)
}

// Step is the scheduling point before every intercepted operation.
func Step(kind uint32) {
	w := active
	if w == nil || w.nosched > 0 {
		return
	}
	w.step(kind)
}

func (w *World) step(kind uint32) {
	if w.killing {
		w.killN++
		if w.killN > 2000 {
			runtime.Goexit()
		}
		return
	}
	t := w.cur
	w.steps++
	t.run++
	Progress.Add(1)
	if !w.frozen {
		w.now += w.Cfg.StepCost
		if w.steps > w.Cfg.SoftSteps && w.Cfg.StepCost < 100_000 {
			// somebody spins: let time pass as it would
			w.now += 100_000 - w.Cfg.StepCost
		}
	}
	w.hash(uint64(t.ID)<<32 | uint64(kind))
	if w.steps > w.Cfg.MaxSteps {
		w.end("no-progress", Sprintf("no completion within %d scheduling steps (fair for the last %d)\n%s", w.Cfg.MaxSteps, w.Cfg.MaxSteps-w.Cfg.SoftSteps, w.describe()))
		w.stopHere()
	}
	if w.steps == w.Cfg.SoftSteps {
		w.fair = true
		w.calm++
		for _, x := range w.tasks {
			if x.stalled {
				w.stalls--
				x.stalled = false
				w.ready(x)
			}
		}
	}
	if w.calm == 0 && w.Cfg.FaultP > 0 && w.F.Flip(w.Cfg.FaultP) {
		w.schedFault(t)
	}
	w.fire()
	w.next(t, false)
}

func (w *World) schedFault(t *Task) {
	c := &w.Cfg
	tot := c.StallW + c.LeapW + c.JumpW
	if tot == 0 {
		return
	}
	k := w.F.Int(tot)
	switch {
	case k < c.StallW:
		d := 1 + int64(w.F.Int(1<<20))*c.StallMax>>20
		w.Faults.Add("stall", 1)
		w.Tracef("fault: task %s stalls for %dns", t.Name, d)
		t.state = stBlocked
		t.Why = "stalled"
		w.unrun(t)
		w.stalls++
		if d > w.stallNs {
			w.stallNs = d
		}
		t.stalled = true
		w.at(w.now+d, func() {
			if t.stalled {
				w.stalls--
				t.stalled = false
				w.ready(t)
			}
		})
	case k < c.StallW+c.LeapW:
		if len(w.timers) > 0 && w.timers[0].when > w.now && w.timers[0].when < eternity {
			w.leaps += w.timers[0].when - w.now
			w.now = w.timers[0].when
			w.Faults.Add("time-leap", 1)
			w.Tracef("fault: time leaps to %dns while tasks are runnable", w.now)
		}
	default:
		d := int64(w.F.Int(1<<20)) * c.JumpMax >> 20
		if w.F.Int(2) == 1 {
			d = -d
		}
		w.wallOff += d
		w.Faults.Add("clock-step", 1)
		w.Tracef("fault: wall clock stepped by %dns", d)
	}
}

// next chooses the task to run after t reached a scheduling point (gone: t ended).
func (w *World) next(t *Task, gone bool) {
	for spins := 0; len(w.runnable) == 0; spins++ {
		if w.ended {
			break
		}
		if spins > 200000 {
			w.end("deadlock", "no task can run; only timers nobody waits for are firing\n"+w.describe())
			break
		}
		if idle := w.firstIdle(); idle != nil && w.stalls == 0 {
			w.ready(idle)
			break
		}
		if len(w.timers) == 0 || w.timers[0].when >= eternity {
			w.end("deadlock", "no task can run and no timer is pending\n"+w.describe())
			break
		}
		if w.timers[0].when > w.now {
			w.now = w.timers[0].when
		}
		w.fire()
	}
	if w.ended {
		if gone {
			w.notify()
			return
		}
		if t.state == stRunnable {
			t.state = stBlocked
		}
		w.notify()
		t.await()
		return
	}
	n := len(w.runnable)
	curIdx := -1
	if !gone && t.state == stRunnable {
		for i, x := range w.runnable {
			if x == t {
				curIdx = i
			}
		}
	}
	// candidate order: current task first, then by ID
	cand := func(k int) *Task {
		if curIdx < 0 {
			return w.runnable[k]
		}
		if k == 0 {
			return t
		}
		if k <= curIdx {
			return w.runnable[k-1]
		}
		return w.runnable[k]
	}
	var c *Task
	switch {
	case n == 1:
		c = w.runnable[0]
	case w.fair:
		c = w.runnable[0]
		for _, x := range w.runnable {
			if x.ID > t.ID {
				c = x
				break
			}
		}
	default:
		k := w.S.Pick(n, func(r *RNG) int { return w.strategy(r, t, n, curIdx, cand) })
		c = cand(k)
	}
	if c == t && !gone {
		return
	}
	w.switches++
	if curIdx >= 0 {
		w.preempts++
	}
	t.run = 0
	w.cur = c
	raceDisable()
	c.wake <- struct{}{}
	raceEnable()
	if !gone {
		t.await()
	}
}

func (w *World) strategy(r *RNG, t *Task, n, curIdx int, cand func(int) *Task) int {
	switch w.Cfg.Strategy {
	case 1:
		if curIdx >= 0 && r.Intn(10000) >= w.Cfg.SwitchP {
			return 0
		}
		return r.Intn(n)
	case 2:
		if w.isChange() || t.run > 64 {
			t.prio = r.Uint64() >> 30
			t.run = 0
		}
		best, bp := 0, uint64(0)
		for k := 0; k < n; k++ {
			if p := cand(k).prio; p > bp || k == 0 {
				best, bp = k, p
			}
		}
		return best
	case 3:
		first := 0
		for k := 0; k < n; k++ {
			if cand(k).ID > t.ID {
				return k
			}
			if cand(k).ID < cand(first).ID {
				first = k
			}
		}
		return first
	default:
		return r.Intn(n)
	}
}

func (w *World) isChange() bool {
	for _, x := range w.changeAt {
		if x == w.steps {
			return true
		}
	}
	return false
}

func (w *World) firstIdle() *Task {
	for _, t := range w.tasks {
		if t.state == stIdle {
			return t
		}
	}
	return nil
}

// Park blocks the current task until Ready is called on it.
func Park(why string) {
	w := active
	if w == nil {
		panic("sim: blocking operation outside a simulation run: " + why)
	}
	if w.killing {
		runtime.Goexit()
	}
	if w.nosched > 0 {
		panic("sim: blocking operation while scheduling is off: " + why)
	}
	t := w.cur
	t.state = stBlocked
	t.Why = why
	w.unrun(t)
	w.next(t, false)
}

func Cur() *Task {
	if active == nil {
		return nil
	}
	return active.cur
}

func Ready(t *Task) { t.w.ready(t) }

// Killing reports that the run is over and tasks are being unwound.
func Killing() bool { return active != nil && active.killing }

// Over reports that the run has been decided.
func Over() bool { return active == nil || active.killing || active.ended }

// Go starts a task.
func Go(name string, fn func()) {
	w := active
	if w == nil || w.killing {
		return
	}
	if len(w.tasks) > 6000+w.longer/10 {
		w.end("runaway", Sprintf("more than %d goroutines started in one run", 6000+w.longer/10))
		w.stopHere()
	}
	w.newTask(name, fn)
	w.step(1)
}

// Dormant creates a task that starts when Activate is called on it.
func Dormant(name string, fn func()) *Task {
	w := active
	if w == nil || w.killing {
		return nil
	}
	t := w.newTask(name, fn)
	t.state = stBlocked
	t.dormant = true
	t.Why = "timer"
	w.unrun(t)
	return t
}

// Activate makes a dormant task runnable.
func Activate(t *Task) {
	if t != nil && t.dormant {
		t.dormant = false
		t.w.ready(t)
	}
}

// Spawn starts a task for the harness and returns a handle.
func Spawn(name string, fn func()) *Task {
	w := active
	return w.newTask(name, fn)
}

// Done reports whether the task has ended.
func (t *Task) Done() bool { return t.state == stDone }

// Gosched yields, letting others go first.
func Gosched() {
	w := active
	if w == nil || w.nosched > 0 {
		return
	}
	if w.Cfg.Strategy == 2 && !w.S.replay && !w.killing {
		w.cur.prio = w.S.rng.Uint64() >> 30
	}
	w.step(2)
}

// WaitIdle blocks the caller until no other task can run without time passing.
func WaitIdle() {
	w := active
	if w.killing {
		runtime.Goexit()
	}
	t := w.cur
	t.state = stIdle
	t.Why = "idle"
	w.unrun(t)
	w.next(t, false)
}

// Join waits for the given tasks to end.
func Join(ts ...*Task) {
	for _, t := range ts {
		w := active
		if w.killing {
			runtime.Goexit()
		}
		if t.state != stDone {
			cur := w.cur
			t.joiners = append(t.joiners, cur)
			Park("join " + t.Name)
		}
		RaceAcquire(unsafe.Pointer(t))
	}
}

// Tick counts loop iterations of library code, so that loops without any
// intercepted operation still end deterministically.
func Tick() {
	w := active
	if w == nil {
		return
	}
	w.ticks++
	if w.ticks&0xffff == 0 {
		Progress.Add(1)
	}
	if w.ticks > w.Cfg.MaxTicks {
		if w.killing {
			runtime.Goexit()
		}
		if w.ended {
			w.stopHere()
		}
		w.end("endless-loop", Sprintf("a loop ran more than %d iterations without the run ending\n%s\n%s", w.Cfg.MaxTicks, w.describe(), trimStack(debug.Stack())))
		w.ticks = w.Cfg.MaxTicks - 100000
		w.stopHere()
	}
}

// Steps returns the number of loop iterations of library code so far, and of
// elements moved in bulk.
func Steps() int64 { return active.ticks + moved }

var moved int64

// Moved counts the elements of a copy. It is never part of library code, where the
// race detector would watch it.
//
//go:noinline
func Moved(n int) int {
	moved += int64(n)
	return n
}

// Spread counts the elements appended at once.
func Spread[S ~[]E, E any](s S) S {
	Moved(len(s))
	return s
}

// NoSched runs fn without scheduling points (initialization, harness setup).
func NoSched(fn func()) {
	w := active
	w.nosched++
	defer func() { w.nosched-- }()
	fn()
}

// Calm stops injecting faults and makes scheduling fair from here on.
func Calm() { active.calm++; active.fair = true }

// Uncalm undoes Calm.
func Uncalm() { active.calm--; active.fair = false }

// FaultsOff / FaultsOn stop and restart fault injection only.
func FaultsOff() { active.calm++ }
func FaultsOn()  { active.calm-- }

func Calmed() bool { return active.calm > 0 }

func (w *World) describe() string {
	var b strings.Builder
	n := 0
	for _, t := range w.tasks {
		if t.state == stDone || t.dormant {
			continue
		}
		n++
		if n > 20 {
			b.WriteString("  ...\n")
			break
		}
		st := "blocked"
		switch t.state {
		case stRunnable:
			st = "runnable"
		case stIdle:
			st = "idle"
		}
		b.WriteString(Sprintf("  task %d %s: %s %s\n", t.ID, t.Name, st, t.Why))
	}
	return b.String()
}

// Live returns the names of tasks (other than the caller) that have not ended.
func Live() []string {
	var out []string
	for _, t := range active.tasks {
		if t.state != stDone && t != active.cur && !t.dormant {
			out = append(out, t.Name+" ("+t.Why+")")
		}
	}
	return out
}

func (w *World) hash(v uint64) {
	h := w.fp
	for i := 0; i < 5; i++ {
		h = (h ^ (v & 0xff)) * 1099511628211
		v >>= 8
	}
	w.fp = h
}

// Log adds an event to the run's event log (hashed; kept as text when tracing).
func Log(format string, args ...any) {
	w := active
	if w == nil || w.killing {
		return
	}
	s := Sprintf(format, args...)
	h := w.loghash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	w.loghash = h*1099511628211 ^ uint64(w.steps)
	if w.Tracing {
		w.trace = append(w.trace, Sprintf("[step %d t=%d %s] %s", w.steps, w.now, w.cur.Name, s))
	}
}

func (w *World) Tracef(format string, args ...any) {
	if w.Tracing {
		w.trace = append(w.trace, Sprintf("[step %d t=%d] ", w.steps, w.now)+Sprintf(format, args...))
	}
}

// Fail reports a violation and ends the run; it does not return.
func Fail(class, format string, args ...any) {
	w := active
	if w == nil {
		panic("sim.Fail outside run: " + Sprintf(format, args...))
	}
	if w.killing || w.ended {
		runtime.Goexit()
	}
	msg := Sprintf(format, args...)
	Log("VIOLATION %s: %s", class, msg)
	w.end(class, msg)
	w.stopHere()
}

// Probe counts that a rare condition was reached.
func Probe(name string) { active.Probes.Add(name, 1) }

// Fault counts an injected fault.
func Fault(name string) { active.Faults.Add(name, 1) }

// Seq is the global event sequence number.
func Seq() int { return active.steps }

// Leapt is the total simulated time skipped by time-leap faults.
func Leapt() int64 { return active.leaps }

// StallMax is the longest stall injected so far.
func StallMax() int64 { return active.stallNs }

// GC runs the garbage collection hooks (pool purges).
func GC() {
	if w := active; w != nil {
		for _, f := range w.OnGC {
			f()
		}
	}
}

// NumTasks is the number of tasks that have not ended.
func NumTasks() int {
	if active == nil {
		return 1
	}
	n := 0
	for _, t := range active.tasks {
		if t.state != stDone && !t.dormant {
			n++
		}
	}
	return n
}

var resets []func()

// RegisterReset registers the re-initialization of one instrumented package;
// registration order is dependency order.
func RegisterReset(pkg string, f func()) { resets = append(resets, f) }

// ResetAll re-runs the package initialization of the instrumented code.
func ResetAll() {
	NoSched(func() {
		for _, f := range resets {
			f()
		}
	})
}

// Zero clears a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Freeze makes steps take no simulated time until Thaw.
func Freeze() { active.frozen = true }
func Thaw()   { active.frozen = false }

// TimerPendingBefore reports whether any timer fires at or before t.
func TimerPendingBefore(t int64) bool {
	return len(active.timers) > 0 && active.timers[0].when <= t
}

// LongRun says that this run is expected to take n scheduling steps more than usual;
// it is allowed many times that before it counts as stuck.
func LongRun(n int) {
	w := active
	w.Cfg.SoftSteps += n
	w.Cfg.MaxSteps += 12 * n
	w.longer += n
}

// Did tells that one of the finitely many things a long run has to do is done, so
// that the step limits count from here: they are there to notice that nothing
// gets done any more.
func Did() {
	w := active
	if w == nil || w.longer == 0 || w.killing {
		return
	}
	if w.steps < w.Cfg.SoftSteps {
		w.Cfg.SoftSteps = max(w.Cfg.SoftSteps, w.steps+50_000)
	}
	w.Cfg.MaxSteps = max(w.Cfg.MaxSteps, w.steps+400_000)
	w.Cfg.MaxTicks = max(w.Cfg.MaxTicks, w.ticks+10_000_000)
}

// Tired tells a long run that it has taken so many steps that it had better end.
func Tired() bool { return active.steps > 3_000_000 }
