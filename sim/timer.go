package sim

// Simulated time: a heap of (when, seq) events.

func (w *World) less(a, b *timer) bool {
	if a.when != b.when {
		return a.when < b.when
	}
	return a.seq < b.seq
}

func (w *World) swap(i, j int) {
	w.timers[i], w.timers[j] = w.timers[j], w.timers[i]
	w.timers[i].pos = i
	w.timers[j].pos = j
}

func (w *World) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !w.less(w.timers[i], w.timers[p]) {
			break
		}
		w.swap(i, p)
		i = p
	}
}

func (w *World) down(i int) {
	n := len(w.timers)
	for {
		l := 2*i + 1
		if l >= n {
			return
		}
		if l+1 < n && w.less(w.timers[l+1], w.timers[l]) {
			l++
		}
		if !w.less(w.timers[l], w.timers[i]) {
			return
		}
		w.swap(i, l)
		i = l
	}
}

func (w *World) at(when int64, fn func()) *timer {
	if when < w.now {
		when = w.now
	}
	w.tseq++
	t := &timer{when: when, seq: w.tseq, fn: fn, pos: len(w.timers)}
	w.timers = append(w.timers, t)
	w.up(t.pos)
	return t
}

func (w *World) cancel(t *timer) bool {
	if t == nil || t.pos < 0 {
		return false
	}
	i := t.pos
	last := len(w.timers) - 1
	w.swap(i, last)
	w.timers = w.timers[:last]
	t.pos = -1
	if i < last {
		w.down(i)
		w.up(i)
	}
	return true
}

func (w *World) fire() {
	for len(w.timers) > 0 && w.timers[0].when <= w.now {
		t := w.timers[0]
		w.cancel(t)
		t.fn()
	}
}

// Event is a scheduled simulated event.
type Event struct{ t *timer }

// After schedules fn (which must not block) after d ns.
func After(d int64, fn func()) *Event {
	w := active
	when := w.now + d
	if d > 0 && when < w.now {
		when = 1<<63 - 1
	}
	return &Event{w.at(when, fn)}
}

// Cancel reports whether the event was still pending.
func (e *Event) Cancel() bool {
	if e == nil || active == nil {
		return false
	}
	return active.cancel(e.t)
}

func (e *Event) Pending() bool { return e != nil && e.t.pos >= 0 }

// Now is elapsed simulated time in ns.
func Now() int64 {
	if active == nil {
		return 0
	}
	return active.now
}

// Wall is the simulated wall clock in Unix ns.
func Wall() int64 {
	if active == nil {
		return 1_700_000_000_000_000_000
	}
	return active.Cfg.WallBase + active.now + active.wallOff
}

// StepWall steps the wall clock.
func StepWall(d int64) { active.wallOff += d }

// Sleep blocks the current task for d ns of simulated time.
func Sleep(d int64) {
	w := active
	Step(3)
	if d <= 0 {
		return
	}
	t := w.cur
	After(d, func() { w.ready(t) })
	Park("sleep")
}
