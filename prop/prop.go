// Package prop holds the scenarios: generated workloads with their oracles. It is
// compiled without race instrumentation and sees the library only through package
// adapt, which is compiled with it.
package prop

import (
	"runtime"
	"sort"
	"time"

	"verif/sim"
)

// Scenario is one family of generated runs.
type Scenario struct {
	Name   string
	Props  []string // properties this scenario decides
	Weight int
	Run    func(e *Env)
	Tune   func(e *Env, c *sim.Config) // adjusts the drawn configuration
	Real   string                      // code that runs for real
	Stub   string                      // what is simulated or stubbed
}

// Meta describes how one property is checked.
type Meta struct {
	ID     string
	Race   bool // build with race instrumentation
	Runs   map[string]int
	Rule   string
	Assume []string
}

var scenarios []*Scenario
var metas = map[string]*Meta{}

func register(s *Scenario) { scenarios = append(scenarios, s) }
func meta(m *Meta)         { metas[m.ID] = m }

func Metas() []*Meta {
	var out []*Meta
	for _, m := range metas {
		out = append(out, m)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func MetaOf(id string) *Meta { return metas[id] }

// For returns the scenarios of a property.
func For(id string) []*Scenario {
	var out []*Scenario
	for _, s := range scenarios {
		for _, p := range s.Props {
			if p == id {
				out = append(out, s)
			}
		}
	}
	return out
}

// Env is what a scenario sees of its run.
type Env struct {
	Prop       string
	W          *sim.Stream
	Nontrivial bool
	Case       func() string // description for samples
	Thorough   bool
	desc       []string
	Size       int // 0..100: how big this run is meant to be
}

func (e *Env) Is(p string) bool { return e.Prop == p }

// Int draws from [0,n).
func (e *Env) Int(n int) int { return e.W.Int(n) }

// Range draws from [lo,hi].
func (e *Env) Range(lo, hi int) int { return lo + e.W.Int(hi-lo+1) }

// Chance is true with probability pct/100.
func (e *Env) Chance(pct int) bool { return e.W.Flip(pct * 100) }

// Pick draws one of the values.
func Pick[T any](e *Env, xs ...T) T { return xs[e.W.Int(len(xs))] }

// Weighted draws an index with the given weights.
func (e *Env) Weighted(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	k := e.W.Int(t)
	for i, w := range ws {
		if k < w {
			return i
		}
		k -= w
	}
	return 0
}

// Note adds to the description of the case.
func (e *Env) Note(format string, a ...any) {
	if len(e.desc) < 400 {
		e.desc = append(e.desc, sim.Sprintf(format, a...))
	}
}

func (e *Env) Desc() []string { return e.desc }

// Fail reports a violation of property p (ignored when another one is checked).
func (e *Env) Fail(p, class, format string, a ...any) {
	if e.Prop == p {
		sim.Fail(class, format, a...)
	}
}

// Check is Fail unless ok.
func (e *Env) Check(ok bool, p, class, format string, a ...any) {
	if !ok {
		e.Fail(p, class, format, a...)
	}
}

// Try runs f and returns what it panicked with, if it did.
func Try(f func()) (p any, panicked bool) {
	done := false
	defer func() {
		if !done && !sim.Killing() {
			if r := recover(); r != nil {
				p, panicked = r, true
			}
		}
	}()
	f()
	done = true
	return
}

// Tasks is a group of harness tasks.
type Tasks struct{ ts []*sim.Task }

func (g *Tasks) Go(name string, f func()) { g.ts = append(g.ts, sim.Spawn(name, f)) }
func (g *Tasks) Join()                    { sim.Join(g.ts...); g.ts = nil }
func (g *Tasks) Done() bool {
	for _, t := range g.ts {
		if !t.Done() {
			return false
		}
	}
	return true
}

const ms = int64(time.Millisecond)

func goexit() { runtime.Goexit() }

// Config draws the scheduling and fault parameters of a run.
func (e *Env) Config(sc *Scenario) sim.Config {
	c := sim.Config{}
	c.Strategy = e.Weighted(3, 4, 4, 1)
	c.SwitchP = Pick(e, 300, 1000, 3000, 100)
	c.StepCost = Pick[int64](e, 1000, 100, 1, 50_000)
	c.ChangePts = e.Range(1, 6)
	c.PoolMode = e.Weighted(5, 4, 2, 1)
	c.RandSeed = uint64(e.Int(1<<30)) + 1
	if e.Chance(55) {
		c.FaultP = Pick(e, 50, 200, 800)
		c.StallW = e.Int(3)
		c.LeapW = e.Int(3)
		c.JumpW = e.Int(3)
	}
	c.StallMax = Pick[int64](e, 1, 20, 500, 5000) * ms
	c.JumpMax = Pick[int64](e, 1000, 10, 3600_000, 86400_000) * ms
	c.WallBase = 1_600_000_000_000_000_000 + int64(e.Int(1<<30))*100_000_000
	if e.Chance(4) { // clocks that were never set, or are about to leave 32 bits
		c.WallBase = Pick[int64](e, 1, 1_000_000_000, 86400_000_000_000, (1<<31-5)*1_000_000_000)
	}
	if sc.Tune != nil {
		sc.Tune(e, &c)
	}
	return c
}
