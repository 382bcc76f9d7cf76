package prop

import (
	"math"
	"time"

	"verif/adapt"
	"verif/sim"
	"verif/sim/simtime"
)

const (
	kFor = iota
	kUntil
	kForever
	kWake
	kDelay
)

const never = int64(math.MaxInt64)

// scall is one call on a sleeper.
type scall struct {
	id        int
	kind      int
	n         int64 // kFor: seconds; kUntil, kDelay: ns from the start of the call
	stripped  bool  // kUntil: no monotonic reading in the argument
	zero      bool  // kUntil: the zero time
	far       bool  // kUntil: the year 3000
	inv, resp int
	t0, t1    int64 // simulated instants of call and return
	min       int64 // returning without wake-up before this is too early
	dur       int64 // of the sleep, never when endless
	est       int64 // instant of the first rest at which it was in progress, -1 before
	res       bool
}

func (c *scall) sleeps() bool { return c.kind <= kForever }

type sleepRun struct {
	e     *Env
	s     adapt.Sleeper
	calls []*scall
	ev    int
	last  int // ev at the last rest
	cur   *scall
}

func (r *sleepRun) tick() int { r.ev++; return r.ev }

func (r *sleepRun) do(c *scall) {
	if c.kind == kDelay {
		sim.Sleep(c.n)
		return
	}
	c.est = -1
	var at time.Time
	if c.kind == kUntil && !c.zero {
		at = simtime.At(sim.Wall()+c.n, sim.Now()+c.n)
		if c.stripped {
			at = at.Round(0)
			if c.id%2 == 0 { // the instant counts, not how it is written
				at = at.In(time.FixedZone("", 5*3600+1800))
			}
		}
	}
	c.t0 = sim.Now()
	switch c.kind {
	case kFor:
		c.dur = never
		if c.n < math.MaxInt64/int64(time.Second) {
			c.dur = 0
			if c.n > 0 {
				c.dur = c.n * int64(time.Second)
			}
		}
	case kUntil:
		c.dur = 0
		if c.n > 0 && !c.zero {
			c.dur = c.n
		}
		if c.far {
			at, c.dur = time.Date(3000, 1, 1, 0, 0, 0, 0, time.UTC), never
		}
	case kForever:
		c.dur = never
	}
	c.min = never
	if c.dur < never-c.t0 {
		c.min = c.t0 + c.dur
	}
	c.inv = r.tick()
	r.calls = append(r.calls, c)
	sim.Log("call %d kind %d n=%d", c.id, c.kind, c.n)
	switch c.kind {
	case kFor:
		c.res = r.s.SleepFor(c.n)
	case kUntil:
		c.res = r.s.SleepUntil(at)
	case kForever:
		c.res = r.s.SleepForever()
	case kWake:
		c.res = r.s.Wakeup()
	}
	c.t1 = sim.Now()
	c.resp = r.tick()
	sim.Log("call %d kind %d -> %v", c.id, c.kind, c.res)
}

func overlap(a, b *scall) bool {
	return (b.resp == 0 || a.inv < b.resp) && (a.resp == 0 || b.inv < a.resp)
}

// rest checks the history whenever the system has come to rest.
func (r *sleepRun) rest() {
	e := r.e
	sim.WaitIdle()
	var busy []*scall
	for _, c := range r.calls {
		if c.resp == 0 {
			if c.kind == kWake {
				e.Fail("C07", "wakeup-blocked", "Wakeup call %d does not return", c.id)
				e.Fail("C08", "wakeup-blocked", "Wakeup call %d does not return", c.id)
			} else {
				busy = append(busy, c)
			}
		}
	}
	if len(busy) > 1 {
		e.Fail("C08", "two-sleepers", "%d sleep calls (%d and %d) are in progress at once: the second should have returned false", len(busy), busy[0].id, busy[1].id)
	}
	trueWakes, wakes := 0, 0
	for _, u := range r.calls {
		if u.kind != kWake || u.resp <= r.last {
			continue
		}
		wakes++
		if !u.res {
			continue
		}
		trueWakes++
		sim.Probe("woken")
		var cand, open int
		for _, s := range r.calls {
			if s.sleeps() && overlap(u, s) && (s.resp == 0 || s.res) {
				cand++
				if s.resp == 0 {
					open++
				}
			}
		}
		e.Check(cand > 0, "C08", "wakeup-of-nobody", "Wakeup call %d reported true although no sleep was in progress during it", u.id)
		e.Check(cand == 0 || open < cand, "C07", "not-woken", "Wakeup call %d reported true but the sleep in progress then has not ended", u.id)
	}
	if s := r.cur; s != nil {
		if s.resp == 0 {
			e.Check(trueWakes == 0, "C07", "not-woken", "a Wakeup reported true while sleep call %d was in progress, but it has not ended", s.id)
			e.Check(wakes == 0, "C07", "unwakeable", "sleep call %d is in progress but Wakeup reports false", s.id)
			late := s.dur < never-s.est && s.dur < never && sim.Now() >= s.est+s.dur
			e.Check(!late, "C08", "overslept", "sleep call %d for %v has not returned %v after it began", s.id, time.Duration(s.dur), time.Duration(sim.Now()-s.t0))
		}
	}
	for _, s := range r.calls {
		if !s.sleeps() || s.resp <= r.last || s.resp == 0 {
			continue
		}
		if !s.res {
			ok := false
			for _, x := range r.calls {
				if x != s && x.sleeps() && overlap(x, s) && (x.resp == 0 || x.res) {
					ok = true
				}
			}
			e.Check(ok, "C08", "refused", "sleep call %d returned false although no other sleep was in progress", s.id)
			sim.Probe("refused-second-sleeper")
		}
	}
	// Every sleep that ended before its time needs a wake-up of its own.
	var early []*scall
	for _, s := range r.calls {
		if s.sleeps() && s.resp > 0 && s.res && s.t1 < s.min {
			early = append(early, s)
		}
	}
	owner := make([]*scall, len(r.calls))
	var try func(s *scall, seen []bool) bool
	try = func(s *scall, seen []bool) bool {
		for i, u := range r.calls {
			if u.kind == kWake && (u.res || u.resp == 0) && overlap(u, s) && !seen[i] {
				seen[i] = true
				if owner[i] == nil || try(owner[i], seen) {
					owner[i] = s
					return true
				}
			}
		}
		return false
	}
	for _, s := range early {
		if !try(s, make([]bool, len(r.calls))) {
			any := false
			for _, u := range r.calls {
				any = any || u.kind == kWake && u.resp > 0 && u.res && overlap(u, s)
			}
			if any {
				e.Fail("C07", "stray-wakeup", "sleep call %d ended %v early, but every Wakeup that reported true during it belongs to another sleep", s.id, time.Duration(s.min-s.t1))
			}
			e.Fail("C08", "early", "sleep call %d ended after %v instead of %v without a Wakeup reporting true for it", s.id, time.Duration(s.t1-s.t0), time.Duration(s.dur))
		}
	}
	r.cur = nil
	if len(busy) == 1 {
		r.cur = busy[0]
		if r.cur.est < 0 {
			r.cur.est = sim.Now()
			sim.Probe("asleep-at-rest")
		}
	}
	r.last = r.ev
}

func sleepScenario(e *Env) {
	if e.Int(1500) == 0 {
		soakSleeper(e)
		return
	}
	r := &sleepRun{e: e}
	n := 0
	call := func() *scall {
		n++
		c := &scall{id: n}
		w := 6
		if e.Is("C08") {
			w = 3
		}
		c.kind = e.Weighted(4, 4, 3, w, 3)
		switch c.kind {
		case kFor:
			c.n = Pick[int64](e, 1, 0, 2, 7, -1, 3600)
			if e.Chance(6) { // days, weeks, years
				c.n = Pick[int64](e, 86_401, 2_147_484, 4_294_968, 31_536_000, 2_147_483_649, 4_294_967_299)
			}
			if e.Chance(15) {
				c.n = Pick[int64](e, 1<<40, math.MaxInt64, 9223372036, 9223372037, math.MinInt64, -9223372037, 18446744074, 1<<33, 36893488148)
			}
		case kUntil:
			c.n = Pick[int64](e, 1000, 500, 0, -5000, 60_000, 1) * ms
			if e.Chance(6) {
				c.n = Pick[int64](e, 86_401, 2_147_484, 31_536_000, 2_147_483_649) * 1000 * ms
			}
			c.n += int64(e.Int(3)) * 333
			c.stripped = e.Chance(50)
			c.zero = e.Chance(10)
			c.far = !c.zero && e.Chance(5)
		case kDelay:
			c.n = Pick[int64](e, 10_000, 500*ms, 1000*ms, 1)
		}
		return c
	}
	phases := e.Range(1, 3+e.Size/25)
	// usually one Sleeper; several must not disturb each other
	rs := []*sleepRun{r}
	if e.Chance(20) {
		for k := e.Range(1, 2); k > 0; k-- {
			rs = append(rs, &sleepRun{e: e})
		}
	}
	type ph struct {
		tasks [][]*scall
		of    []*sleepRun
		act   int
		d     int64
	}
	plan := make([]ph, phases)
	for i := range plan {
		for k := e.Range(1, 3); k > 0; k-- {
			var ops []*scall
			for x := e.Range(1, 3); x > 0; x-- {
				ops = append(ops, call())
			}
			plan[i].tasks = append(plan[i].tasks, ops)
			plan[i].of = append(plan[i].of, rs[e.Int(len(rs))])
		}
		plan[i].act = e.Int(4)
		plan[i].d = Pick[int64](e, 1000, 300, 10, 3700_000, 7000) * ms
		if e.Chance(5) {
			plan[i].d = Pick[int64](e, 86_400, 2_147_480, 31_536_000) * 1000 * ms
		}
	}
	e.Note("sleepers=%d phases=%d calls=%d", len(rs), phases, n)
	e.Nontrivial = n >= 2
	for _, x := range rs {
		x.s = adapt.NewSleeper()
	}
	rest := func() {
		for _, x := range rs {
			x.rest()
		}
	}
	for _, p := range plan {
		for i, ops := range p.tasks {
			i, ops := i, ops
			sim.Spawn("user", func() {
				for _, c := range ops {
					p.of[i].do(c)
				}
			})
		}
		rest()
		switch p.act {
		case 1:
			sim.StepWall(p.d)
			sim.Fault("clock-step")
		case 2:
			sim.StepWall(-p.d)
			sim.Fault("clock-step")
		}
		if p.act != 3 {
			sim.Sleep(p.d)
			rest()
		}
	}
	// Wind down: whoever sleeps can be woken, until everybody is through.
	sim.Calm()
	wake := func() {
		rest()
		for _, x := range rs {
			for k := 0; x.cur != nil && k < 200; k++ {
				n++
				x.do(&scall{id: n, kind: kWake})
				rest()
			}
		}
	}
	wake()
	// and the Sleepers are as good as new
	var ones []*scall
	for range rs {
		n++
		ones = append(ones, &scall{id: n, kind: kFor, n: 1})
	}
	sim.Sleep(3 * 3600 * 1000 * ms)
	wake()
	for i, x := range rs {
		i, x := i, x
		sim.Spawn("last", func() { x.do(ones[i]) })
	}
	rest()
	sim.Sleep(500 * ms)
	rest()
	sim.Sleep(500 * ms)
	rest()
	for _, one := range ones {
		e.Check(one.resp > 0 && one.res, "C08", "unusable", "after all sleeps have ended a new SleepFor(1) returned %v", one.res)
	}
}

// soakSleeper: one Sleeper is put to sleep and woken very many times.
func soakSleeper(e *Env) {
	k := Pick(e, 70, 300, e.Range(50, 1500))
	if e.Int(8) == 0 {
		k = 66_000
	}
	wakes := e.Range(10, 90)
	seed := uint64(e.Int(1 << 30))
	e.Note("soak cycles=%d wake-ups=%d%%", k, wakes)
	e.Nontrivial = true
	sim.LongRun(k * 30)
	sim.Calm()
	sim.Freeze()
	s := adapt.NewSleeper()
	r := sim.NewRNG(seed)
	sim.Probe("many-sleeps")
	type req struct {
		kind int
		d    int64
	}
	var q req
	var t1 int64
	var res bool
	done := 0
	todo := make(chan struct{}, 1)
	g := Tasks{}
	g.Go("sleeper", func() {
		for i := 0; i < k; i++ {
			sim.Recv(todo)
			switch q.kind {
			case kFor:
				res = s.SleepFor(q.d / (1000 * ms))
			case kUntil:
				res = s.SleepUntil(simtime.At(sim.Wall()+q.d, sim.Now()+q.d))
			default:
				res = s.SleepForever()
			}
			t1 = sim.Now()
			done++
		}
	})
	for i := 0; i < k; i++ {
		sim.Did()
		q = req{kind: r.Intn(3), d: int64(1+r.Intn(4)) * 1000 * ms}
		if q.kind == kFor && r.Intn(9) == 0 {
			q.d = 3600 * 1000 * ms
		}
		wake := q.kind == kForever || r.Intn(100) < wakes
		t0 := sim.Now()
		sim.SendTo(todo)(struct{}{})
		sim.WaitIdle()
		e.Check(done == i, "C08", "early", "sleep %d in a row ended at once", i)
		if wake {
			if d := int64(r.Intn(900)) * ms; d > 0 {
				sim.Sleep(d)
				sim.WaitIdle()
				e.Check(done == i, "C08", "early", "sleep %d in a row ended early, after %v", i, time.Duration(t1-t0))
			}
			ok := s.Wakeup()
			sim.WaitIdle()
			e.Check(ok, "C07", "unwakeable", "sleep %d in a row is in progress but Wakeup reports false", i)
			e.Check(done == i+1, "C07", "not-woken", "Wakeup reported true but sleep %d in a row has not ended", i)
		} else {
			sim.Sleep(q.d - ms)
			sim.WaitIdle()
			e.Check(done == i, "C08", "early", "sleep %d in a row ended early, after %v instead of %v", i, time.Duration(t1-t0), time.Duration(q.d))
			sim.Sleep(500 * ms)
			sim.WaitIdle()
			e.Check(done == i+1, "C08", "overslept", "sleep %d in a row for %v has not ended", i, time.Duration(q.d))
		}
		if done != i+1 {
			return
		}
		e.Check(res, "C08", "refused", "sleep %d in a row returned false although no other was in progress", i)
		if r.Intn(4) == 0 {
			e.Check(!s.Wakeup(), "C08", "wakeup-of-nobody", "Wakeup reported true although nobody sleeps, after %d sleeps", i+1)
		}
	}
	g.Join()
}

func init() {
	register(&Scenario{Name: "sleeper", Props: []string{"C07", "C08"}, Weight: 1, Run: sleepScenario,
		Tune: func(e *Env, c *sim.Config) { c.JumpW = 0 },
		Real: "timex/sleepx, timex", Stub: "goroutine scheduler, clock, timers, context (ported), sync/atomic scheduling points"})
	for _, id := range []string{"C07", "C08"} {
		meta(&Meta{ID: id, Race: true, Rule: "a run is one generated history of sleeps, wake-ups and clock steps on one Sleeper with its schedule and faults; non-trivial when it makes at least two calls",
			Runs: map[string]int{"quick": 300000, "thorough": 6000000}})
	}
}
