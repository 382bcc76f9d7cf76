// Package simtime replaces the clock and timers of package time.
package simtime

import (
	"time"
	"unsafe"

	"verif/sim"
)

const monoBase = 1 << 40

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

// at builds the Time that time.Now would have returned: wall clock and monotonic
// clock reading, the latter unaffected by clock steps.
func at(wall, mono int64) time.Time {
	const unixTo1885 = 2682288000 // seconds from 1885-01-01 to 1970-01-01
	sec := wall / 1e9
	nsec := wall % 1e9
	if nsec < 0 {
		nsec += 1e9
		sec--
	}
	t := time.Unix(sec, nsec)
	r := (*rawTime)(unsafe.Pointer(&t))
	r.wall = 1<<63 | uint64(sec+unixTo1885)<<30 | uint64(nsec)
	r.ext = mono + monoBase
	r.loc = time.Local
	return t
}

// At is the reading Now would give at simulated instant mono with wall clock wall.
func At(wall, mono int64) time.Time { return at(wall, mono) }

// Mono extracts the simulated instant from a Time made by Now (ok false: stripped).
func Mono(t time.Time) (int64, bool) {
	r := (*rawTime)(unsafe.Pointer(&t))
	if r.wall>>63 == 0 {
		return 0, false
	}
	return r.ext - monoBase, true
}

func Now() time.Time {
	sim.Step(60)
	return at(sim.Wall(), sim.Now())
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) { sim.Sleep(int64(d)) }

// Timer has the semantics of a module at go 1.19: a buffered channel, and values
// already sent stay in it.
type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	ev   *sim.Event
	f    func()
	task *sim.Task
}

func (t *Timer) arm(d time.Duration) {
	if t.f != nil {
		t.task = sim.Dormant("time.AfterFunc", t.f)
		task := t.task
		t.ev = sim.After(int64(d), func() { sim.Activate(task) })
		return
	}
	sim.TimerToken(t.c)
	t.ev = sim.After(int64(d), func() { sim.SendNow(t.c, at(sim.Wall(), sim.Now())) })
}

func NewTimer(d time.Duration) *Timer {
	sim.Step(61)
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

func AfterFunc(d time.Duration, f func()) *Timer {
	sim.Step(62)
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool {
	if t.ev == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	sim.Step(63)
	return t.ev.Cancel()
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.ev == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	sim.Step(64)
	was := t.ev.Cancel()
	t.arm(d)
	return was
}

type Ticker struct {
	C  <-chan time.Time
	c  chan time.Time
	ev *sim.Event
}

func (t *Ticker) arm(d time.Duration) {
	sim.TimerToken(t.c)
	next := sim.Now() + int64(d)
	var fire func()
	fire = func() {
		sim.SendNow(t.c, at(sim.Wall(), sim.Now())) // dropped when the channel is full
		for next += int64(d); next <= sim.Now(); next += int64(d) {
		}
		t.ev = sim.After(next-sim.Now(), fire)
	}
	t.ev = sim.After(int64(d), fire)
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	sim.Step(65)
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c}
	t.arm(d)
	return t
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) Stop() {
	if t.ev == nil {
		return
	}
	sim.Step(66)
	t.ev.Cancel()
}

func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	if t.ev == nil {
		panic("time: Reset called on uninitialized Ticker")
	}
	sim.Step(67)
	t.ev.Cancel()
	t.arm(d)
}
