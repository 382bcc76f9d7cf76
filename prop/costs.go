package prop

import (
	"math/bits"

	"verif/adapt"
	"verif/sim"
)

// C31 counts the loop iterations the library takes (the same counter that
// notices endless loops) while a container is filled, worked on and emptied.

// meter judges the mean number of steps per operation.
type meter struct {
	e     *Env
	what  string
	start int64
	ops   int
	most  int // the largest number of entries held so far in this phase
	bad   bool
}

// A structure may put work off and do it all at once now and then, so the
// mean is taken over the whole phase.
func newMeter(e *Env, what string, held int) *meter {
	return &meter{e: e, what: what, start: sim.Steps(), most: held}
}

// allowed is far above what any reasonable structure needs (a skip list with
// 30,000 entries needs about 50 on average) and far below what a walk takes.
func allowed(n int, log bool) int64 {
	if !log {
		return 300
	}
	return 150 + 14*int64(bits.Len(uint(n)))
}

// done counts k operations; planned is how many the phase will have.
func (m *meter) done(k, held, planned int, log bool) bool {
	m.ops += k
	m.most = max(m.most, held)
	if planned < m.ops {
		planned = m.ops
	}
	took := sim.Steps() - m.start
	if lim := allowed(m.most, log); took > lim*int64(planned) && !m.bad {
		m.bad = true
		m.e.Fail("C31", "slow", "%s: %d operations on at most %d entries took %d loop iterations; %d per operation would be many already",
			m.what, m.ops, m.most, took, lim)
	}
	return !m.bad
}

// keyOrder gives the i-th of n keys.
func keyOrder(e *Env, n, limit int) (func(i int) int, string) {
	salt := uint64(e.Int(1 << 30))
	step := limit / n
	if step < 1 {
		step = 1
	}
	switch e.Int(5) {
	case 0:
		return func(i int) int { return i * step % limit }, "ascending"
	case 1:
		return func(i int) int { return (limit - 1) - i*step%limit }, "descending"
	case 2: // from both ends to the middle
		return func(i int) int {
			if i%2 == 0 {
				return i / 2 * step % limit
			}
			return limit - 1 - i/2*step%limit
		}, "from both ends"
	case 3: // blocks of ascending keys, the blocks descending
		return func(i int) int {
			b := i / 64 * 64
			return ((n-b)*step + i%64) % limit
		}, "in runs"
	}
	return func(i int) int { return sim.NewRNG(salt + uint64(i)*0x9e3779b97f4a7c15).Intn(limit) }, "random"
}

func mapCosts(e *Env) {
	ord := e.Chance(40)
	kind := Pick(e, 0, 1, 3)
	m := adapt.NewSortedMap(ord, kind)
	n := Pick(e, 2000, 5000, 12000, e.Range(1000, 6000))
	if e.Int(10) == 0 {
		n = 30000
	}
	name := "skip-list map"
	if ord {
		name = "ordered map"
	}
	e.Note("%s kind=%d entries=%d", name, kind, n)
	for round := e.Range(1, 3); round > 0; round-- {
		held := map[int]bool{}
		key, how := keyOrder(e, n, adapt.SortedMax[kind])
		e.Note("filled %s", how)
		set := func(k int) { m.Set(k, k); held[k] = true }
		del := func(k int) { m.Del(k); delete(held, k) }

		window := 0 // 0: everything stays
		if e.Chance(30) {
			window = Pick(e, 1, 10, 300)
			e.Note("only the latest %d stay", window)
			sim.Probe("turnover")
		}
		mt := newMeter(e, name+", filling "+how, 0)
		for i := 0; i < n; i++ {
			set(key(i))
			k := 1
			if window > 0 && i >= window {
				del(key(i - window))
				k = 2
			}
			if !mt.done(k, len(held), n, true) {
				return
			}
		}
		sim.Log("filled %s: %d entries, %d steps", how, len(held), sim.Steps()-mt.start)

		mt = newMeter(e, name+", in use after filling "+how, len(held))
		r := sim.NewRNG(uint64(e.Int(1 << 30)))
		var it adapt.MapIterator
		if !ord {
			it = m.Iterator()
		}
		narrow := e.Chance(50) // a small part of the keys, or all
		use := n / 2
		for i := 0; i < use; i++ {
			j := r.Intn(n)
			if narrow {
				j = n - 1 - r.Intn(20)
			}
			k := key(j)
			switch what := r.Intn(4); {
			case what == 0:
				set(k)
			case what == 1 && it != nil:
				it.Seek(k)
			case what == 2 && window == 0:
				del(k)
			default:
				m.Get(k)
			}
			if !mt.done(1, len(held), use, true) {
				return
			}
		}
		sim.Log("used: %d entries, %d steps", len(held), sim.Steps()-mt.start)

		for again := 0; again < 2; again++ { // work that was put off may be done the first time
			mt = newMeter(e, name+", listing", len(held))
			m.Keys()
			m.Values()
			if it != nil {
				it.Rewind()
				for range held {
					it.Next()
				}
			} else {
				m.Range(func(int, int) bool { return false })
			}
			mt.ops = 3 * len(held)
			if again > 0 && !mt.done(30, len(held), 0, true) {
				return
			}
		}
		sim.Log("listed: %d steps", sim.Steps()-mt.start)

		if e.Chance(30) {
			m.Clear()
			continue
		}
		mt = newMeter(e, name+", emptying", len(held))
		all := m.Keys()
		back := e.Chance(50)
		for i := range all {
			k := all[i]
			if back {
				k = all[len(all)-1-i]
			}
			del(k)
			if !mt.done(1, len(held), max(len(all), 200), true) {
				return
			}
		}
		sim.Log("emptied: %d steps", sim.Steps()-mt.start)
	}
}

func seqCosts(e *Env) {
	kind := e.Int(adapt.ElemKinds)
	var name string
	var add, take func(v int)
	var every func()
	switch e.Int(4) {
	case 0:
		d := adapt.NewDeque(kind)
		name = "linked deque"
		mode := e.Int(4)
		i := 0
		add = func(v int) {
			if i++; mode == 0 || mode == 3 && i%3 == 0 {
				d.PushFront(v)
			} else {
				d.PushBack(v)
			}
		}
		take = func(int) {
			if i++; mode == 1 || mode == 3 && i%5 < 2 {
				d.PopBack()
			} else {
				d.PopFront()
			}
		}
		every = func() { d.PeekFront(); d.PeekBack() }
	case 1:
		q := adapt.NewQueue(kind, 0)
		name = "linked queue"
		add = func(v int) { q.Enqueue(v) }
		take = func(int) { q.Dequeue() }
		every = func() { q.Peek(); q.IsEmpty() }
	case 2:
		s := adapt.NewStack(kind, true)
		name = "linked stack"
		add = func(v int) { s.Push(v) }
		take = func(int) { s.Pop() }
		every = func() { s.Peek() }
	default:
		l := adapt.NewList(kind, true)
		name = "linked list"
		add = func(v int) { l.Append(v) }
		take = func(n int) { l.Remove(0) }
		every = func() { l.Len() }
	}
	e.Note("%s kind=%d", name, kind)
	held := 0
	for phase := e.Range(2, 6); phase > 0; phase-- {
		n := Pick(e, 1000, 3000, 10000, e.Range(1000, 5000))
		if e.Int(12) == 0 {
			n = 60000
		}
		what := Pick(e, "filling", "turning over", "emptying", "wavering")
		mt := newMeter(e, name+", "+what, held)
		wave := e.Range(1, 200)
		for i := 0; i < n; i++ {
			grow := false
			switch what {
			case "filling":
				grow = true
			case "turning over":
				grow = i%2 == 0
			case "wavering":
				grow = i/wave%2 == 0
			}
			if grow {
				add(i + 1)
				held++
			} else {
				take(held)
				held = max(held-1, 0)
			}
			every()
			if !mt.done(1, held, n, false) {
				return
			}
		}
		sim.Log("%s: %d entries, %d steps", what, held, sim.Steps()-mt.start)
	}
}

func costScenario(e *Env) {
	e.Nontrivial = true
	sim.LongRun(200000)
	sim.NoSched(func() {
		if e.Chance(65) {
			mapCosts(e)
		} else {
			seqCosts(e)
		}
	})
}

func init() {
	register(&Scenario{Name: "costs", Props: []string{"C31"}, Weight: 1, Run: costScenario,
		Tune: func(e *Env, c *sim.Config) { c.MaxTicks = 100_000_000 },
		Real: "dsx/mapx/sklmapx, dsx/mapx/ordmapx, dsx/linkedx", Stub: "clock and random source that seed the tower heights, sync.Pool (pooling decisions drawn)"})
	meta(&Meta{ID: "C31", Rule: "a run is one seed of the tower heights and of the pooling decisions, and one order of keys or pushes; every run is non-trivial (at least 1000 operations)",
		Runs: map[string]int{"quick": 6000, "thorough": 200000}})
}
