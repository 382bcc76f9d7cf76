package prop

import (
	"sort"
	"time"

	"verif/adapt"
	"verif/sim"
	"verif/sim/simtime"
)

type smodel struct {
	m     map[int]int
	order []int
	dirty bool
}

func (s *smodel) keys() []int {
	if s.dirty {
		s.order = s.order[:0]
		for k := range s.m {
			s.order = append(s.order, k)
		}
		sort.Ints(s.order)
		s.dirty = false
	}
	return s.order
}

type siter struct {
	it  adapt.MapIterator
	pos int // index of the entry Next yields; -1: unknown until Seek or Rewind
}

// sortedMap runs one map against its model for a number of operations.
type sortedMap struct {
	e     *Env
	p     string
	ord   bool
	m     adapt.SortedMap
	md    smodel
	its   []*siter
	keys  int
	grow  int // weight of insertions
	nextV int
	log   bool
	kind  int
	noStr bool
}

func newSortedModel(e *Env, p string, ord bool, kind, keys int) *sortedMap {
	return &sortedMap{e: e, p: p, ord: ord, m: adapt.NewSortedMap(ord, kind), md: smodel{m: map[int]int{}}, keys: keys, grow: Pick(e, 3, 6, 12), log: true, kind: kind}
}

func (s *sortedMap) fail(class, format string, a ...any) { s.e.Fail(s.p, class, format, a...) }

func (s *sortedMap) changed() {
	s.md.dirty = true
	for _, it := range s.its {
		it.pos = -1
	}
}

func (s *sortedMap) set(k int) {
	s.nextV++
	v := s.nextV
	if s.nextV%7 == 0 {
		v = 0
	}
	s.m.Set(k, v)
	s.md.m[k] = v
	s.changed()
	if s.log {
		sim.Log("set %d=%d", k, v)
	}
}

func (s *sortedMap) del(k int) {
	_, had := s.md.m[k]
	ok := s.m.Del(k)
	if s.log {
		sim.Log("del %d -> %v", k, ok)
	}
	if !s.ord && ok != had {
		s.fail("del", "Del(%d) reported %v, present: %v", k, ok, had)
	}
	delete(s.md.m, k)
	s.changed()
	if had {
		sim.Probe("deleted")
	}
}

func (s *sortedMap) get(k int) {
	v, ok := s.m.Get(k)
	w, had := s.md.m[k]
	if s.log {
		sim.Log("get %d -> %d %v", k, v, ok)
	}
	if ok != had || v != w {
		s.fail("get", "Get(%d) gave %d, %v instead of %d, %v", k, v, ok, w, had)
	}
}

func (s *sortedMap) keysCheck() {
	got, want := s.m.Keys(), s.md.keys()
	if len(got) != len(want) {
		s.fail("keys", "Keys lists %d keys instead of %d", len(got), len(want))
		return
	}
	for i := range got {
		if got[i] != want[i] {
			s.fail("keys", "Keys lists %d at position %d instead of %d", got[i], i, want[i])
			return
		}
	}
}

func (s *sortedMap) valuesCheck() {
	got, want := s.m.Values(), s.md.keys()
	if len(got) != len(want) {
		s.fail("values", "Values lists %d values instead of %d", len(got), len(want))
		return
	}
	for i := range got {
		if got[i] != s.md.m[want[i]] {
			s.fail("values", "Values lists %d at position %d instead of %d", got[i], i, s.md.m[want[i]])
			return
		}
	}
}

func (s *sortedMap) lenCheck() {
	if n := s.m.Len(); n != len(s.md.m) {
		s.fail("len", "Len is %d instead of %d", n, len(s.md.m))
	}
}

func (s *sortedMap) toMap() {
	got := s.m.ToMap()
	if len(got) != 2*len(s.md.m) {
		s.fail("tomap", "ToMap has %d entries instead of %d", len(got)/2, len(s.md.m))
		return
	}
	for i := 0; i < len(got); i += 2 {
		if v, ok := s.md.m[got[i]]; !ok || v != got[i+1] {
			s.fail("tomap", "ToMap maps %d to %d; it should be %d, %v", got[i], got[i+1], v, ok)
			return
		}
	}
}

func (s *sortedMap) str() {
	b := []byte("sklmapx[")
	for i, k := range s.md.keys() {
		if i > 0 {
			b = append(b, ' ')
		}
		b = append(b, s.m.Spell(k, s.md.m[k])...)
	}
	b = append(b, ']')
	want := string(b)
	if got := s.m.String(); got != want {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		cut := func(s string) string { return s[max(0, min(len(s), i)-60):min(len(s), i+60)] }
		s.fail("string", "String has %d bytes with %s instead of %d with %s (at %d)", len(got), cut(got), len(want), cut(want), i)
	}
}

func (s *sortedMap) rng() {
	want := s.md.keys()
	stop := -1
	if s.e.Chance(50) {
		stop = s.e.Int(len(want) + 1)
	}
	i := 0
	over := false
	s.m.Range(func(k, v int) bool {
		if over {
			s.fail("range", "Range went on after its callback had asked it to stop")
			return true
		}
		if i >= len(want) || k != want[i] || v != s.md.m[k] {
			s.fail("range", "Range visits %d=%d at position %d", k, v, i)
			return true
		}
		i++
		over = i-1 == stop
		return over
	})
	if !over && i != len(want) {
		s.fail("range", "Range visited %d of %d entries", i, len(want))
	}
	sim.Log("range stopped at %d", i)
}

func (s *sortedMap) iter() {
	if len(s.its) == 0 || len(s.its) < 3 && s.e.Chance(30) {
		s.its = append(s.its, &siter{it: s.m.Iterator()})
	}
	it := s.its[s.e.Int(len(s.its))]
	want := s.md.keys()
	switch s.e.Weighted(5, 2, 2) {
	case 0:
		n := 1
		if s.e.Chance(30) {
			n = len(want) + 3
		}
		for ; n > 0 && it.pos >= 0; n-- {
			k, v, ok := it.it.Next()
			if ok != (it.pos < len(want)) {
				s.fail("iterator", "Next reported %v at position %d of %d", ok, it.pos, len(want))
				return
			}
			if !ok {
				sim.Probe("iterator-end")
				continue
			}
			if k != want[it.pos] || v != s.md.m[k] {
				s.fail("iterator", "Next yields %d=%d at position %d instead of %d=%d", k, v, it.pos, want[it.pos], s.md.m[want[it.pos]])
				return
			}
			it.pos++
		}
	case 1:
		k := s.e.Int(s.keys)
		if len(want) > 0 && s.e.Chance(70) {
			k = want[s.e.Int(len(want))]
		}
		v, had := s.md.m[k]
		gk, gv, ok := it.it.Seek(k)
		if ok != had || ok && (gk != k || gv != v) {
			s.fail("seek", "Seek(%d) gave %d=%d, %v; present: %v", k, gk, gv, ok, had)
			return
		}
		it.pos = -1
		if ok {
			it.pos = sort.SearchInts(want, k) + 1
		}
		sim.Log("seek %d %v", k, ok)
	case 2:
		it.it.Rewind()
		it.pos = 0
		sim.Log("rewind")
	}
}

func (s *sortedMap) key() int {
	if want := len(s.md.m); want > 0 && want < 200 && s.e.Chance(40) {
		ks := s.md.keys()
		return ks[s.e.Int(len(ks))]
	}
	return s.e.Int(s.keys)
}

func (s *sortedMap) op() {
	e := s.e
	switch e.Weighted(s.grow, 4, 3, 1, 3, 2, 2, 6) {
	case 0:
		s.set(s.key())
	case 1:
		s.del(s.key())
	case 2:
		s.get(s.key())
	case 3:
		if e.Chance(40) {
			s.m.Clear()
			s.md.m = map[int]int{}
			s.changed()
			sim.Log("clear")
		}
	case 4:
		s.lenCheck()
	case 5:
		s.keysCheck()
	case 6:
		s.valuesCheck()
	case 7:
		if s.ord {
			s.rng()
			return
		}
		switch e.Int(5) {
		case 0:
			s.toMap()
		case 1:
			if !s.noStr && s.kind != 2 && (s.kind < 4 || s.kind == 7) { // those show addresses
				s.str()
			}
		default:
			s.iter()
		}
	}
}

func (s *sortedMap) final() {
	s.lenCheck()
	s.keysCheck()
	s.valuesCheck()
	if s.ord {
		s.rng()
	} else {
		s.toMap()
		it := s.m.Iterator()
		n := 0
		for _, k := range s.md.keys() {
			gk, gv, ok := it.Next()
			if !ok || gk != k || gv != s.md.m[k] {
				s.fail("iterator", "Next yields %d=%d, %v at position %d instead of %d=%d", gk, gv, ok, n, k, s.md.m[k])
				return
			}
			n++
		}
		for i := 0; i < 3; i++ {
			if _, _, ok := it.Next(); ok {
				s.fail("iterator", "Next yields an entry after the end")
			}
		}
	}
}

func sortedScenario(p string, ord bool) func(e *Env) {
	return func(e *Env) {
		sim.NoSched(func() {
			kind := e.Int(adapt.SortedKinds)
			keys := Pick(e, 3, 8, 30, 200)
			big := e.W.Int(1000) == 0
			if big {
				keys = Pick(e, 2000, 50000, 100000)
				kind = Pick(e, 0, 1, 3)
			}
			if keys > adapt.SortedMax[kind] {
				keys = adapt.SortedMax[kind]
			}
			s := newSortedModel(e, p, ord, kind, keys)
			n := e.Range(2, 12+e.Size)
			e.Nontrivial = n >= 5
			e.Note("kind=%d keys=%d operations=%d big=%v", kind, keys, n, big)
			if big {
				sim.Probe("many-entries")
				s.log = false
				fill := Pick(e, 3000, 20000, 60000)
				r := sim.NewRNG(uint64(e.Int(1 << 30)))
				for i := 0; i < fill; i++ {
					if k := r.Intn(keys); r.Intn(5) == 0 {
						s.del(k)
					} else {
						s.set(k)
					}
				}
				for i := 0; i < 50; i++ {
					s.get(r.Intn(keys))
				}
				s.log = true
				n = e.Range(5, 40)
			}
			for i := 0; i < n; i++ {
				s.op()
			}
			s.final()
		})
	}
}

// --- durations

func differScenario(e *Env) {
	frozen := e.Chance(50)
	type op struct {
		kind int // 0 start, 1 end, 2 sleep, 3 clock step, 4 get, 5 Now
		d    int64
	}
	nt := 1
	if e.Chance(30) && !frozen {
		nt = e.Range(2, 3)
	}
	var plan [][]op
	n := 0
	for t := 0; t < nt; t++ {
		var ops []op
		for x := e.Range(3, 12+e.Size/8); x > 0; x-- {
			o := op{kind: e.Weighted(4, 4, 4, 4, 3, 2)}
			switch e.Int(4) {
			case 0:
				o.d = int64(e.Range(0, 2000))
			case 1:
				o.d = int64(e.Range(0, 2000)) * ms
			case 2:
				o.d = int64(e.Range(0, 200)) * 86400_000 * ms
			default:
				o.d = int64(e.Range(0, 1_000_000_000))
			}
			if o.kind == 3 && e.Chance(60) {
				o.d = -o.d
			}
			ops = append(ops, o)
			n++
		}
		plan = append(plan, ops)
	}
	e.Note("tasks=%d operations=%d frozen=%v", nt, n, frozen)
	e.Nontrivial = n >= 3
	if frozen {
		sim.Calm()
		sim.Freeze()
	}
	steps := 0
	run := func(ops []op) {
		d := adapt.NewDiffer()
		type span struct{ lo, hi, wlo, whi int64 } // instants the call happened between
		var start, end span
		state := 0 // 1 started, 2 started and ended
		endGen := false
		at := func(f func()) span {
			var s span
			st := steps
			s.lo, s.wlo = sim.Now(), sim.Wall()
			f()
			s.hi, s.whi = sim.Now(), sim.Wall()
			if st != steps || s.whi-s.wlo != s.hi-s.lo {
				s.wlo, s.whi = -1, -1 // the wall clock was stepped during the call
			}
			return s
		}
		in := func(what string, t time.Time, s span) {
			if m, ok := simtime.Mono(t); ok {
				e.Check(m >= s.lo && m <= s.hi, "C16", "instant", "%s is %d ns off the instant of the call", what, m-s.lo)
			}
			if s.wlo >= 0 {
				w := t.UnixNano()
				e.Check(w >= s.wlo && w <= s.whi, "C16", "instant", "%s shows a wall clock %d ns off that of the call", what, w-s.wlo)
			}
		}
		get := func() {
			if state >= 1 {
				in("GetStart", d.GetStart(), start)
			}
			if endGen {
				in("GetEnd", d.GetEnd(), end)
			}
			if state == 2 {
				g := d.GetDiff()
				e.Check(g >= 0, "C16", "negative", "GetDiff is %d ns", g)
				lo, hi := end.lo-start.hi, end.hi-start.lo
				if lo < 0 {
					lo = 0
				}
				e.Check(g >= lo && g <= hi, "C16", "diff", "GetDiff is %d ns although between %d and %d ns elapsed", g, lo, hi)
			}
		}
		for _, o := range ops {
			switch o.kind {
			case 0:
				start = at(d.Start)
				state = 1
				sim.Log("start")
			case 1:
				end = at(d.End)
				endGen = true
				if state >= 1 {
					state = 2
				}
				sim.Log("end")
				get()
			case 2:
				sim.Sleep(o.d)
			case 3:
				sim.StepWall(o.d)
				steps++
				sim.Fault("clock-step")
				sim.Log("clock stepped by %d ns", o.d)
			case 4:
				get()
			case 5:
				var t time.Time
				s := at(func() { t = adapt.TimexNow() })
				in("Now", t, s)
				e.Check(t.Location() == time.UTC, "C16", "utc", "Now is in the zone %s", t.Location().String())
				_, off := t.Zone()
				e.Check(off == 0, "C16", "utc", "Now is %d s off UTC", off)
			}
		}
		get()
	}
	if nt == 1 {
		run(plan[0])
		return
	}
	var g Tasks
	for _, ops := range plan {
		ops := ops
		g.Go("user", func() { run(ops) })
	}
	g.Join()
}

func init() {
	register(&Scenario{Name: "skiplist", Props: []string{"C17"}, Weight: 1, Run: sortedScenario("C17", false),
		Real: "dsx/mapx/sklmapx", Stub: "clock and random source that seed the tower heights"})
	meta(&Meta{ID: "C17", Rule: "a run is one seed of the tower heights and one generated sequence of operations; non-trivial with at least five operations",
		Runs: map[string]int{"quick": 400000, "thorough": 8000000}})
	register(&Scenario{Name: "ordmap", Props: []string{"C18"}, Weight: 1, Run: sortedScenario("C18", true),
		Real: "dsx/mapx/ordmapx, dsx/mapx/sklmapx", Stub: "clock and random source that seed the tower heights"})
	meta(&Meta{ID: "C18", Rule: "a run is one seed of the tower heights and one generated sequence of operations; non-trivial with at least five operations",
		Runs: map[string]int{"quick": 400000, "thorough": 8000000}})
	register(&Scenario{Name: "differ", Props: []string{"C16"}, Weight: 1, Run: differScenario,
		Real: "timex/diffx, timex", Stub: "clock"})
	meta(&Meta{ID: "C16", Rule: "a run is one generated sequence of measurements, pauses and clock steps; non-trivial with at least three operations",
		Runs: map[string]int{"quick": 300000, "thorough": 6000000}})
}
