package prop

import (
	"time"

	"verif/adapt"
	"verif/sim"
)

const (
	hInstant = iota
	hSleep
	hGate
	hStop
	hNested
)

type pjob struct {
	id       int
	kind     int
	dur      int64
	nested   *pjob
	inv      int
	resp     int
	accepted bool
	count    int
	start    int
	end      int
}

type poolRun struct {
	e        *Env
	p        adapt.Pool
	max      int
	preheat  int
	idle, gc int64
	order    []*pjob
	ev       int
	running  int
	segs     []seg // running count over time
	t0       int64
	stopInv  bool
	stopDone bool
	gates    []*gate
	open     bool
	lastWork int64
	wk       []*pworker
	days     bool // long pauses happen
}

type gate struct {
	t    *sim.Task
	open bool
}

type seg struct {
	t int64
	n int
}

// pworker is a goroutine that runs handlers.
type pworker struct {
	t    *sim.Task
	busy bool
	last int64 // when it was busy last
}

func (r *poolRun) tick() int { r.ev++; return r.ev }

func (r *poolRun) setRunning(d int) {
	r.running += d
	r.segs = append(r.segs, seg{sim.Now(), r.running})
	r.lastWork = sim.Now()
}

func (r *poolRun) handler(id int) {
	e := r.e
	var j *pjob
	for _, x := range r.order {
		if x.id == id {
			j = x
		}
	}
	if j == nil {
		e.Fail("C01", "changed-value", "the handler was given a value that was never submitted, or was changed on the way")
		return
	}
	j.count++
	j.start = r.tick()
	sim.Log("handler start %d", id)
	var w *pworker
	for _, x := range r.wk {
		if x.t == sim.Cur() {
			w = x
		}
	}
	if w == nil {
		w = &pworker{t: sim.Cur()}
		r.wk = append(r.wk, nil)
		r.wk[len(r.wk)-1] = w
	}
	w.busy = true
	r.setRunning(1)
	e.Check(j.count == 1, "C01", "run-twice", "task %d was run %d times", id, j.count)
	e.Check(j.resp == 0 || j.accepted, "C01", "refused-but-run", "Run(%d) reported false but the task was run", id)
	e.Check(r.running <= r.max, "C02", "too-many-handlers", "%d handlers running, the limit is %d", r.running, r.max)
	switch j.kind {
	case hSleep:
		sim.Sleep(j.dur)
	case hGate:
		g := &gate{t: sim.Cur(), open: r.open}
		r.gates = append(r.gates, g)
		for !g.open {
			sim.Park("handler at gate")
		}
	case hStop:
		r.stop()
	case hNested:
		r.submit(j.nested)
	default:
		sim.Step(200)
	}
	j.end = r.tick()
	w.busy, w.last = false, sim.Now()
	sim.Log("handler end %d", id)
	r.setRunning(-1)
}

func (r *poolRun) openGates() {
	g := r.gates
	r.gates = nil
	for _, x := range g {
		x.open = true
		sim.Ready(x.t)
	}
}

func (r *poolRun) submit(j *pjob) bool {
	e := r.e
	r.order = append(r.order, j)
	stopped := r.stopDone
	j.inv = r.tick()
	r.lastWork = sim.Now()
	ok := r.p.Run(j.id)
	r.lastWork = sim.Now()
	j.accepted = ok
	j.resp = r.tick()
	sim.Log("run %d -> %v", j.id, ok)
	if ok {
		e.Check(!stopped, "C03", "accepted-after-stop", "Run(%d) was accepted although Stop had returned before it was called", j.id)
		n := 0
		for _, k := range r.order {
			if k != j && k.accepted && k.resp < j.inv && k.resp > 0 && k.end == 0 {
				n++
			}
		}
		e.Check(n < r.max, "C02", "over-accepted", "Run(%d) was accepted while %d accepted tasks were unfinished throughout the call, the limit is %d", j.id, n, r.max)
	} else {
		e.Check(j.count == 0, "C01", "refused-but-run", "Run(%d) reported false but the task was run", j.id)
	}
	return ok
}

func (r *poolRun) stop() {
	r.stopInv = true
	sim.Log("stop...")
	r.p.Stop()
	r.stopDone = true
	sim.Log("stop returned")
}

func (r *poolRun) workers() {
	e := r.e
	a := sim.Now()
	low := r.running
	nseg := len(r.segs)
	nwk := len(r.wk)
	n := int(r.p.Workers())
	b := sim.Now()
	for _, s := range r.segs[nseg:] {
		if s.n < low {
			low = s.n
		}
	}
	sim.Log("workers -> %d", n)
	e.Check(n <= r.max, "C02", "workers-over-limit", "Workers reports %d, the limit is %d", n, r.max)
	e.Check(n >= low, "C02", "workers-under-running", "Workers reports %d while at least %d handlers were running throughout the call", n, low)
	if r.stopInv {
		return
	}
	from := b - r.idle
	m := 0
	if r.t0 > from {
		m = r.preheat
	}
	end := b + 1
	if nseg < len(r.segs) {
		end = r.segs[nseg].t
	}
	for i := nseg - 1; i >= 0 && end > from; i-- {
		if r.segs[i].t <= a && r.segs[i].n > m {
			m = r.segs[i].n
		}
		end = r.segs[i].t
	}
	e.Check(n >= m, "C04", "retired-early", "Workers reports %d, but %d workers have been busy within the idle timeout of %v", n, m, time.Duration(r.idle))
	k := 0
	for i := 0; i < nwk; i++ {
		if w := r.wk[i]; w.busy || w.last > from {
			k++
		}
	}
	e.Check(n >= k, "C04", "retired-early", "Workers reports %d, but %d different workers have been busy within the idle timeout of %v", n, k, time.Duration(r.idle))
	if m > 0 && r.running == 0 {
		sim.Probe("idle-workers-sampled")
	}
}

type pop struct {
	kind int // 0 run, 1 sleep, 2 workers, 3 stop, 4 wall step
	d    int64
	job  *pjob
}

func poolScenario(e *Env) {
	rare := e.Int(3000)
	if rare == 0 {
		poolSoak(e)
		return
	}
	r := &poolRun{e: e}
	r.max = e.Range(1, 4)
	if e.Chance(10) {
		r.max = e.Range(5, 9)
	}
	big := rare == 1
	if big {
		r.max = Pick(e, 12, 17, 33, 65, 129, 257, e.Range(10, 100))
		sim.LongRun(r.max * 600)
	}
	roomy := rare >= 2 && rare < 10
	room := r.max
	if roomy { // a limit that is never reached
		r.max = Pick(e, 256, 65_536, 1<<20) + e.Int(3)
		sim.Probe("limit-far-away")
	}
	ph := 0
	switch e.Weighted(4, 4, 2) {
	case 1:
		ph = e.Range(1, room)
	case 2:
		ph = room + e.Range(1, 3)
	}
	r.preheat = ph
	if ph > r.max {
		r.preheat = r.max
	}
	r.gc = Pick[int64](e, 10, 3, 50) * ms
	r.idle = Pick[int64](e, 20, 5, 100, 1) * ms
	maxDur := 300 * ms
	slow := rare >= 10 && rare < 30
	if slow { // hours instead of milliseconds
		r.gc *= 360_000
		r.idle *= 360_000
		maxDur *= 360_000
		r.days = true
		sim.LongRun(60_000)
		sim.Probe("slow-pool")
	}
	rareTicks := !slow && e.Is("C03") && e.Chance(15)
	if rareTicks { // the idle collector hardly ever looks
		r.gc = maxDur * 3
	}
	kind := Pick(e, 0, 1, 2, 3, 4)
	stopW := 0
	switch e.Prop {
	case "C03":
		stopW = 6
	case "C01":
		stopW = Pick(e, 0, 0, 2)
	case "C02":
		stopW = Pick(e, 0, 0, 0, 1)
	}
	nextID := 0
	var mkJob func(depth int) *pjob
	mkJob = func(depth int) *pjob {
		nextID++
		j := &pjob{id: nextID}
		sw := 0
		if stopW > 2 {
			sw = 1
		}
		switch e.Weighted(5, 6, 3, sw, 2) {
		case 1:
			j.kind = hSleep
			j.dur = e.dur(r)
		case 2:
			j.kind = hGate
		case 3:
			j.kind = hStop
		case 4:
			if depth < 2 {
				j.kind = hNested
				j.nested = mkJob(depth + 1)
			}
		}
		return j
	}
	phases := e.Range(1, 3)
	plan := make([][][]pop, phases)
	for i := range plan {
		plan[i] = make([][]pop, e.Range(1, 4))
		for k := range plan[i] {
			n := e.Range(1, 3+e.Size/12)
			if big && k == 0 {
				n = r.max/2 + e.Int(r.max)
			}
			for x := 0; x < n; x++ {
				var o pop
				o.kind = e.Weighted(10, 4, 3, stopW, 1)
				switch o.kind {
				case 0:
					o.job = mkJob(0)
				case 1:
					o.d = e.dur(r)
				case 4:
					o.d = int64(e.Range(-3600_000, 3600_000)) * ms
				}
				plan[i][k] = append(plan[i][k], o)
			}
		}
	}
	probe := make([]bool, phases)
	keep := make([]bool, phases)
	for i := range probe {
		probe[i] = e.Chance(70)
		keep[i] = e.Chance(25)
	}
	stops := 1
	if e.Is("C03") {
		stops = e.Range(1, 3)
	}
	gatesAtStop := e.Chance(40)
	lateRun := e.Chance(60)
	quiet := e.Is("C04") && e.Chance(20)
	burst := make([]int64, e.Range(0, room))
	for i := range burst {
		burst[i] = Pick[int64](e, 0, 0, 1, int64(e.Range(1, 3000))) * 1000
	}
	pause := e.dur(r)
	// single tasks at intervals, so that the workers' idle times differ
	spread := make([]int64, e.Weighted(2, 1)*e.Range(1, 7))
	for i := range spread {
		spread[i] = Pick(e, r.idle/8, r.idle/4, r.idle/2, r.idle*3/4, r.gc, 0)
	}
	many := e.Chance(50) // let the burst leave many idle workers before
	e.Note("max=%d preheat=%d idle=%v gc=%v kind=%d phases=%d jobs=%d", r.max, ph, time.Duration(r.idle), time.Duration(r.gc), kind, phases, nextID)

	if quiet {
		sim.FaultsOff() // a stalled collector retires late
	}
	r.t0 = sim.Now()
	p, err := adapt.NewPool(kind, int64(r.max), r.handler, time.Duration(r.idle), time.Duration(r.gc), ph)
	if err != nil {
		if ph > r.max {
			return // refusing an oversized preheat is fine too
		}
		sim.Fail("constructor", "NewTimedPool failed: %v", err)
	}
	r.p = p
	r.lastWork = sim.Now()
	if r.preheat > 0 {
		r.workers()
	}
	if quiet {
		plan = nil // no work at all: preheated workers are retired, too
		sim.Probe("no-work")
	}
	for i, ph := range plan {
		var g Tasks
		for _, ops := range ph {
			ops := ops
			g.Go("client", func() {
				for _, o := range ops {
					switch o.kind {
					case 0:
						r.submit(o.job)
					case 1:
						sim.Sleep(o.d)
					case 2:
						r.workers()
					case 3:
						r.stop()
					case 4:
						sim.StepWall(o.d)
						sim.Fault("clock-step")
					}
				}
			})
		}
		g.Join()
		if probe[i] {
			r.probe()
		}
		if !keep[i] {
			r.openGates()
		}
	}
	e.Nontrivial = len(r.order) >= 2 || quiet && r.preheat > 0
	// Everything accepted must start without any further call.
	sim.WaitIdle()
	sim.Calm()
	if quiet {
		sim.FaultsOn()
	}
	sim.WaitIdle()
	for _, j := range r.order {
		e.Check(!j.accepted || j.count == 1, "C01", "accepted-not-started", "Run(%d) reported true but the task has not been started although the system is at rest", j.id)
	}
	r.workers()
	if !gatesAtStop || e.Prop == "C04" {
		r.open = true
		r.openGates()
		if !quiet {
			sim.Sleep(maxDur)
		}
	}
	live := -1
	if e.Prop == "C04" && !r.stopInv {
		// let sleeping handlers end, then measure idleness from the last activity,
		// that of a last burst of tasks
		if !quiet {
			r.settle(maxDur)
			sim.Sleep(pause)
			for i, d := range burst {
				r.submit(&pjob{id: 600_000 + i, kind: hSleep, dur: d})
			}
			sim.WaitIdle()
			for i := 0; i < 40 && r.running > 0; i++ {
				sim.Sleep(ms / 10)
			}
			sim.WaitIdle()
			r.workers()
			if many && len(spread) > 0 {
				for i := 0; i < room; i++ {
					r.submit(&pjob{id: 650_000 + i, kind: hSleep, dur: ms / 20})
				}
			}
			for i, d := range spread {
				sim.Sleep(d)
				r.workers()
				r.submit(&pjob{id: 700_000 + i, kind: hInstant})
				sim.WaitIdle()
				if len(spread)-i <= 2 {
					sim.Probe("tasks-spread-out")
				}
			}
			for i := 0; i < 8 && len(spread) > 0 && r.lastWork+r.idle-ms/2 > sim.Now()+r.idle/8; i++ {
				sim.Sleep(r.idle / 8)
				r.workers()
			}
			sim.WaitIdle()
		}
		sim.StepWall(-int64(len(r.order)%3) * 3600_000 * ms)
		if r.lastWork+r.idle+2*r.gc+ms > sim.Now() {
			// sample just before the idle timeout, too
			if d := r.lastWork + r.idle - sim.Now() - ms/2; d > 0 {
				sim.Sleep(d)
				r.workers()
			}
			sim.Sleep(r.lastWork + r.idle + 2*r.gc + ms - sim.Now())
		}
		sim.WaitIdle()
		n := r.p.Workers()
		e.Check(n == 0, "C04", "not-retired", "Workers reports %d after %v without work (idle timeout %v, GC period %v)", n, time.Duration(sim.Now()-r.lastWork), time.Duration(r.idle), time.Duration(r.gc))
		live = len(sim.Live())
		names := sim.Live()
		var extra adapt.Pool
		extra, _ = adapt.NewPool(kind, int64(r.max), r.handler, time.Duration(r.idle), time.Duration(r.gc), 0)
		sim.WaitIdle()
		perPool := len(sim.Live()) - live
		e.Check(live <= perPool, "C04", "goroutines-left", "%d goroutines of the pool are left after all workers should have been retired (an unused pool has %d): %v", live, perPool, names)
		extra.Stop()
		sim.Probe("retired-all")
		if lateRun {
			j := &pjob{id: 1_000_000}
			ok := r.submit(j)
			sim.WaitIdle()
			e.Check(ok && j.count == 1, "C04", "no-fresh-worker", "after all workers were retired a Run was not served (accepted=%v, runs=%d)", ok, j.count)
		}
	}
	sim.Uncalm()
	var g Tasks
	for i := 0; i < stops; i++ {
		g.Go("stopper", r.stop)
	}
	if lateRun && (e.Is("C03") || e.Is("C01")) {
		g.Go("late client", func() { r.submit(&pjob{id: 2_000_000}); r.submit(&pjob{id: 2_000_001, kind: hSleep, dur: 5 * ms}) })
	}
	g.Join()
	if e.Is("C03") {
		r.submit(&pjob{id: 3_000_000})
		r.stop()
	}
	sim.Calm()
	r.open = true
	r.openGates()
	r.ended(r.settle(maxDur))
	sim.Sleep(r.idle + 3*r.gc)
	sim.WaitIdle()
	for _, j := range r.order {
		if j.accepted {
			if r.stopDone {
				e.Check(j.count == 1, "C03", "accepted-lost-by-stop", "task %d was accepted but not run to completion after Stop", j.id)
			}
			e.Check(j.count == 1, "C01", "accepted-lost", "Run(%d) reported true but the task was run %d times", j.id, j.count)
		} else {
			e.Check(j.count == 0, "C01", "refused-but-run", "Run(%d) reported false but the task was run", j.id)
		}
	}
	r.ended(true)
}

// ended checks that nothing is left of a stopped pool whose handlers have returned.
func (r *poolRun) ended(idle bool) {
	if !idle || !r.e.Is("C03") {
		return
	}
	n := r.p.Workers()
	r.e.Check(n == 0, "C03", "workers-left", "Workers reports %d after Stop when all handlers have returned (idle timeout %v, GC period %v)", n, time.Duration(r.idle), time.Duration(r.gc))
	l := sim.Live()
	r.e.Check(len(l) == 0, "C03", "goroutines-left", "goroutines left after Stop when all handlers have returned: %v", l)
}

// poolSoak: very many tasks, one after another or in waves, with pauses in which
// workers may retire.
func poolSoak(e *Env) {
	max := e.Range(1, 5)
	if e.Chance(15) {
		max = e.Range(6, 70)
	}
	idle := Pick[int64](e, 20, 5, 2) * ms
	gc := Pick[int64](e, 10, 3) * ms
	total := e.Range(200, 2500)
	if e.Int(40) == 0 {
		total = e.Range(66_000, 68_000)
		max = e.Range(1, 3)
	}
	pre := e.Int(max + 1)
	pauses := Pick(e, 0, 1, 20) // percent of waves followed by a pause
	e.Note("soak: max=%d preheat=%d tasks=%d pauses=%d%%", max, pre, total, pauses)
	e.Nontrivial = true
	sim.LongRun(total*40 + max*200)
	sim.Probe("many-tasks")
	count := make([]uint8, total)
	finished := make([]bool, total)
	running := 0
	handler := func(id int) {
		if id < 0 || id >= total {
			e.Fail("C01", "changed-value", "the handler was given a value that was never submitted, or was changed on the way")
			return
		}
		count[id]++
		running++
		e.Check(count[id] == 1, "C01", "run-twice", "task %d was run %d times", id, count[id])
		e.Check(running <= max, "C02", "too-many-handlers", "%d handlers running, the limit is %d", running, max)
		if id%3 == 0 {
			sim.Step(200)
		} else if id%50 == 1 {
			sim.Sleep(int64(id%7+1) * 1000)
		}
		finished[id] = true
		running--
	}
	p, err := adapt.NewPool(Pick(e, 0, 1, 2, 3, 4), int64(max), handler, time.Duration(idle), time.Duration(gc), pre)
	if err != nil {
		sim.Fail("constructor", "NewTimedPool failed: %v", err)
	}
	accepted := make([]bool, total)
	last := sim.Now()
	for i := 0; i < total; {
		from := i
		wave := e.Int(max) + 1
		sim.FaultsOff()
		sim.WaitIdle()
		sim.Freeze()
		for k := 0; k < wave && i < total; k++ {
			sim.Did()
			ok := p.Run(i)
			accepted[i] = ok
			e.Check(ok, "C02", "capacity-lost", "the pool was at rest before %d Runs, but number %d of them was refused (limit %d)", wave, k+1, max)
			i++
		}
		sim.WaitIdle()
		sim.Thaw()
		for n := 0; running > 0 && n < 100; n++ {
			sim.Sleep(10_000)
			sim.WaitIdle()
		}
		for k := from; k < i; k++ {
			if accepted[k] {
				e.Check(count[k] == 1, "C01", "accepted-not-started", "Run(%d) reported true but the task has not been started although the system is at rest", k)
				e.Check(running > 0 || finished[k], "C01", "accepted-not-started", "task %d did not finish", k)
			} else {
				e.Check(count[k] == 0, "C01", "refused-but-run", "Run(%d) reported false but the task was run", k)
			}
		}
		sim.FaultsOn()
		last = sim.Now()
		if e.Int(100) < pauses {
			sim.Sleep(Pick(e, idle/2, idle, idle+gc, idle+3*gc))
			sim.WaitIdle()
		}
		if i&63 == 0 {
			n := int(p.Workers())
			e.Check(n <= max, "C02", "workers-over-limit", "Workers reports %d, the limit is %d", n, max)
		}
	}
	sim.Calm()
	if d := last + idle + 2*gc + ms - sim.Now(); d > 0 {
		sim.Sleep(d)
	}
	sim.WaitIdle()
	n := p.Workers()
	e.Check(n == 0, "C04", "not-retired", "Workers reports %d after %v without work (idle timeout %v, GC period %v)", n, time.Duration(sim.Now()-last), time.Duration(idle), time.Duration(gc))
	p.Stop()
	sim.WaitIdle()
	for k := range count {
		e.Check(!accepted[k] || count[k] == 1, "C03", "accepted-lost-by-stop", "task %d was accepted but not run to completion after Stop", k)
	}
	n = p.Workers()
	e.Check(n == 0, "C03", "workers-left", "Workers reports %d after Stop when all handlers have returned", n)
	l := sim.Live()
	e.Check(len(l) == 0, "C03", "goroutines-left", "goroutines left after Stop when all handlers have returned: %v", l)
}

// settle lets time pass until no accepted task is unfinished; it reports whether it got there.
func (r *poolRun) settle(d int64) bool {
	sim.WaitIdle()
	for k := 0; k < 60; k++ {
		sim.Sleep(d)
		sim.WaitIdle()
		busy := r.running > 0
		for _, j := range r.order {
			busy = busy || j.accepted && j.end == 0
		}
		if !busy {
			return true
		}
	}
	return false
}

func (e *Env) dur(r *poolRun) int64 {
	if r.days && e.Int(6) == 0 {
		sim.Probe("days-between-tasks")
		return int64(e.Range(20, 60)) * 24 * 3600_000 * ms
	}
	switch e.Int(5) {
	case 0:
		return int64(e.Range(1, 900)) * 1000
	case 1:
		return r.gc
	case 2:
		return r.idle
	case 3:
		return r.idle + r.gc*int64(e.Range(0, 3))
	default:
		return int64(e.Range(1, 30)) * ms
	}
}

// probe fills the pool from rest.
func (r *poolRun) probe() {
	e := r.e
	sim.FaultsOff()
	sim.WaitIdle()
	sim.Freeze()
	if !r.stopInv {
		n := r.max - r.running
		far := n > 1000
		if far {
			n = 20
		}
		base := r.running
		sim.Probe("filled-from-rest")
		for i := 0; i < n; i++ {
			j := &pjob{id: 500_000 + len(r.order), kind: hGate}
			if !r.submit(j) {
				e.Fail("C02", "capacity-lost", "the pool was at rest with %d of %d tasks running, but the further Run number %d was refused", base, r.max, i+1)
			}
		}
		j := &pjob{id: 500_000 + len(r.order), kind: hGate}
		ok := r.submit(j)
		e.Check(!ok || far, "C02", "over-accepted", "with %d tasks accepted and unfinished a further Run was accepted", r.max)
		sim.WaitIdle()
		for _, j := range r.order {
			e.Check(!j.accepted || j.count == 1, "C01", "accepted-not-started", "Run(%d) reported true but the task has not been started although the system is at rest", j.id)
		}
		r.workers()
	}
	sim.Thaw()
	sim.FaultsOn()
}

func init() {
	register(&Scenario{Name: "pool", Props: []string{"C01", "C02", "C03", "C04"}, Weight: 1, Run: poolScenario,
		Real: "poolx/gopoolx, syncx/syncpoolx", Stub: "goroutine scheduler, channels, sync, clock, timers, sync.Pool"})
	for _, id := range []string{"C01", "C02", "C03", "C04"} {
		meta(&Meta{ID: id, Race: true, Rule: "a run is one generated pool configuration, client plan, schedule and fault sequence; non-trivial when at least two tasks were submitted",
			Runs: map[string]int{"quick": 300000, "thorough": 6000000}})
	}
}
