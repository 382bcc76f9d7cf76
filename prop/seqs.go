package prop

import (
	"verif/adapt"
	"verif/sim"
)

// seqRunner drives one container against a plain slice, one drawn operation at a time.
type seqRunner struct {
	e     *Env
	p     string
	quiet bool
	model []int
	nextV int
	ops   int
	step  func(s *seqRunner)
	grow  func(v int)                 // adds at the end
	shift func(back bool) (int, bool) // takes from the front, or from the back
	most  int                         // the largest size worth trying
	lifo  bool                        // takes from the back only
	fifo  bool                        // takes from the front only
	empty bool                        // the elements carry nothing, all count as 0
}

// soak makes the container large, works on it, and takes everything out again.
func (s *seqRunner) soak() {
	e := s.e
	k := Pick(e, 300, 1100, 5000, e.Range(200, 3000))
	if e.Int(12) == 0 {
		k = 70_000
	}
	if k > s.most {
		k = s.most
	}
	turnover := !s.lifo && e.Chance(40) // many have passed through, few are in it
	s.quiet = true
	sim.LongRun(k * 20)
	sim.Probe("large-container")
	for r := e.Range(1, 2); r > 0; r-- {
		old := len(s.model)
		m := make([]int, old+k)
		copy(m, s.model)
		s.model = m
		lo := 0
		for i := old; i < len(m); i++ {
			m[i] = s.val()
			s.grow(m[i])
			sim.Did()
			if turnover && i-lo > 20 {
				s.model = m[lo : i+1]
				v, ok := s.shift(false)
				s.took("taking from the front", v, ok, m[lo], true)
				lo++
			}
		}
		s.model = m[lo:len(m):len(m)]
		for i := e.Range(0, 60); i > 0; i-- {
			s.step(s)
		}
		back := e.Int(3)
		for all := e.Chance(70); len(s.model) > 0; {
			b := !s.fifo && (s.lifo || back == 1 || back == 2 && e.Chance(50))
			v, ok := s.shift(b)
			if b {
				w, _ := s.back()
				s.took("taking from the back", v, ok, w, true)
				s.popBack()
			} else {
				s.took("taking from the front", v, ok, s.model[0], true)
				s.model = s.model[1:]
			}
			if !all && len(s.model) < k/2 {
				break
			}
		}
	}
}

func (s *seqRunner) fail(class, format string, a ...any) { s.e.Fail(s.p, class, format, a...) }

func (s *seqRunner) val() int {
	s.nextV++
	if s.empty || s.nextV%11 == 0 {
		return 0
	}
	return s.nextV
}

func (s *seqRunner) log(format string, a ...any) {
	if !s.quiet {
		sim.Log(format, a...)
	}
}

// took compares the result of a removal or peek with the model.
func (s *seqRunner) took(what string, v int, ok bool, want int, had bool) {
	s.log("%s -> %d %v", what, v, ok)
	sim.Did()
	if ok != had {
		s.fail("presence", "%s reported %v with %d elements", what, ok, len(s.model))
	} else if ok && v != want {
		s.fail("wrong-element", "%s gave %d instead of %d (of %d elements)", what, v, want, len(s.model))
	}
}

func (s *seqRunner) front() (int, bool) {
	if len(s.model) == 0 {
		return 0, false
	}
	return s.model[0], true
}

func (s *seqRunner) back() (int, bool) {
	if len(s.model) == 0 {
		return 0, false
	}
	return s.model[len(s.model)-1], true
}

func (s *seqRunner) popFront() { s.model = sim.Remove(s.model, 0) }
func (s *seqRunner) popBack()  { s.model = s.model[:len(s.model)-1] }
func (s *seqRunner) push(v int) {
	s.model = sim.Concat(s.model, []int{v})
}

func dequeRunner(e *Env, p string, kind int) *seqRunner {
	d := adapt.NewDeque(kind)
	bias := e.Int(3) // how fast it grows
	s := &seqRunner{e: e, p: p, empty: kind == adapt.ElemEmpty, most: 70_000, grow: d.PushBack}
	s.shift = func(back bool) (int, bool) {
		if back {
			return d.PopBack()
		}
		return d.PopFront()
	}
	s.step = func(s *seqRunner) {
		n := 1
		switch e.Weighted(6, 2, 1) {
		case 1:
			n = e.Range(1, 10)
		case 2:
			n = e.Range(50, 140)
		}
		op := e.Weighted(3+bias, 3+bias, 4, 4, 2, 2, 1)
		for i := 0; i < n; i++ {
			switch op {
			case 0:
				v := s.val()
				d.PushFront(v)
				s.model = sim.Insert(s.model, 0, v)
				s.log("push front %d", v)
			case 1:
				v := s.val()
				d.PushBack(v)
				s.push(v)
				s.log("push back %d", v)
			case 2:
				v, ok := d.PopFront()
				w, had := s.front()
				s.took("PopFront", v, ok, w, had)
				if had {
					s.popFront()
				}
			case 3:
				v, ok := d.PopBack()
				w, had := s.back()
				s.took("PopBack", v, ok, w, had)
				if had {
					s.popBack()
				}
			case 4:
				v, ok := d.PeekFront()
				w, had := s.front()
				s.took("PeekFront", v, ok, w, had)
			case 5:
				v, ok := d.PeekBack()
				w, had := s.back()
				s.took("PeekBack", v, ok, w, had)
			case 6: // empty it
				for len(s.model) > 0 {
					if e.Chance(50) {
						v, ok := d.PopBack()
						w, had := s.back()
						s.took("PopBack", v, ok, w, had)
						s.popBack()
					} else {
						v, ok := d.PopFront()
						w, had := s.front()
						s.took("PopFront", v, ok, w, had)
						s.popFront()
					}
				}
				v, ok := d.PopFront()
				s.took("PopFront", v, ok, 0, false)
				v, ok = d.PopBack()
				s.took("PopBack", v, ok, 0, false)
				v, ok = d.PeekFront()
				s.took("PeekFront", v, ok, 0, false)
				v, ok = d.PeekBack()
				s.took("PeekBack", v, ok, 0, false)
				i = n
			}
			s.ops++
		}
	}
	return s
}

func listRunner(e *Env, p string, kind int, linked bool) *seqRunner {
	l := adapt.NewList(kind, linked)
	s := &seqRunner{e: e, p: p, empty: kind == adapt.ElemEmpty, most: 2500, grow: l.Append}
	s.shift = func(back bool) (int, bool) {
		if back {
			return l.Remove(len(s.model) - 1)
		}
		return l.Remove(0)
	}
	bias := e.Int(3)
	s.step = func(s *seqRunner) {
		n := len(s.model)
		idx := func() int {
			switch e.Weighted(6, 2, 2, 2) {
			case 1:
				return 0
			case 2:
				return n - e.Int(2)
			case 3:
				if linked {
					return Pick(e, -1, n, n+1, n+5, -100)
				}
			}
			if n == 0 {
				return 0
			}
			return e.Int(n)
		}
		s.ops++
		switch e.Weighted(3+bias, 3, 4, 3, 3, 2, 1) {
		case 0:
			v := s.val()
			l.Append(v)
			s.push(v)
			s.log("append %d", v)
		case 1:
			i := idx()
			if e.Chance(20) {
				i = n
			}
			if !linked && (i < 0 || i > n) {
				i = n
			}
			v := s.val()
			l.Insert(i, v)
			s.log("insert %d at %d of %d", v, i, n)
			if i >= 0 && i <= n {
				s.model = sim.Insert(s.model, i, v)
			}
		case 2:
			i := idx()
			v, ok := l.Remove(i)
			s.log("remove %d of %d", i, n)
			if i >= 0 && i < n {
				s.took(sim.Sprintf("Remove(%d)", i), v, ok, s.model[i], true)
				s.model = sim.Remove(s.model, i)
			} else {
				s.took(sim.Sprintf("Remove(%d)", i), v, ok, 0, false)
			}
		case 3:
			i := idx()
			v, ok := l.At(i)
			if i >= 0 && i < n {
				s.took(sim.Sprintf("At(%d)", i), v, ok, s.model[i], true)
			} else {
				s.took(sim.Sprintf("At(%d)", i), v, ok, 0, false)
			}
		case 4:
			if k := l.Len(); k != n {
				s.fail("len", "Len is %d instead of %d", k, n)
			}
		case 5:
			stop := -1
			if e.Chance(50) {
				stop = e.Int(n + 1)
			}
			i, over := 0, false
			l.Iterate(func(v int) bool {
				if over {
					s.fail("iterate", "Iterate went on after it had been told to stop")
				} else if i >= n {
					s.fail("iterate", "Iterate visits %d after the last of %d elements", v, n)
					over = true
				} else if v != s.model[i] {
					s.fail("iterate", "Iterate visits %d at position %d instead of %d", v, i, s.model[i])
				}
				i++
				over = over || i-1 == stop
				return !over
			})
			if !over && i != n {
				s.fail("iterate", "Iterate visited %d of %d elements", i, n)
			}
		case 6: // empty it
			for len(s.model) > 0 {
				i := e.Int(len(s.model))
				if e.Chance(30) {
					i = 0
				} else if e.Chance(30) {
					i = len(s.model) - 1
				}
				v, ok := l.Remove(i)
				s.took(sim.Sprintf("Remove(%d)", i), v, ok, s.model[i], true)
				s.model = sim.Remove(s.model, i)
			}
			if linked || e.Chance(50) {
				v, ok := l.Remove(0)
				s.took("Remove(0)", v, ok, 0, false)
			}
		}
	}
	return s
}

func queueRunner(e *Env, p string, kind int, ring int) *seqRunner {
	q := adapt.NewQueue(kind, ring)
	s := &seqRunner{e: e, p: p, empty: kind == adapt.ElemEmpty, most: 70_000, grow: func(v int) {
		if !q.Enqueue(v) {
			e.Fail(p, "enqueue", "Enqueue reported false")
		}
	}}
	s.shift = func(bool) (int, bool) { return q.Dequeue() }
	s.fifo = true
	bias := e.Int(3)
	s.step = func(s *seqRunner) {
		n := 1
		if e.Chance(25) {
			n = e.Range(1, 8)
		}
		op := e.Weighted(3+bias, 4, 2, 2)
		for ; n > 0; n-- {
			s.ops++
			switch op {
			case 0:
				v := s.val()
				full := ring > 0 && len(s.model) >= ring
				ok := q.Enqueue(v)
				s.log("enqueue %d -> %v", v, ok)
				if ok == full {
					s.fail("enqueue", "Enqueue reported %v with %d elements", ok, len(s.model))
				}
				if !full {
					s.push(v)
				}
			case 1:
				v, ok := q.Dequeue()
				w, had := s.front()
				s.took("Dequeue", v, ok, w, had)
				if had {
					s.popFront()
				}
			case 2:
				v, ok := q.Peek()
				w, had := s.front()
				s.took("Peek", v, ok, w, had)
			case 3:
				if em := q.IsEmpty(); em != (len(s.model) == 0) {
					s.fail("isempty", "IsEmpty is %v with %d elements", em, len(s.model))
				}
			}
		}
	}
	return s
}

func stackRunner(e *Env, p string, kind int, linked bool) *seqRunner {
	st := adapt.NewStack(kind, linked)
	s := &seqRunner{e: e, p: p, empty: kind == adapt.ElemEmpty, most: 70_000, grow: func(v int) {
		if !st.Push(v) {
			e.Fail(p, "push", "Push reported false")
		}
	}}
	s.shift = func(bool) (int, bool) { return st.Pop() }
	s.lifo = true
	bias := e.Int(3)
	s.step = func(s *seqRunner) {
		n := 1
		if e.Chance(25) {
			n = e.Range(1, 8)
		}
		op := e.Weighted(3+bias, 4, 2, 2)
		for ; n > 0; n-- {
			s.ops++
			switch op {
			case 0:
				v := s.val()
				if !st.Push(v) {
					s.fail("push", "Push reported false")
				}
				s.log("push %d", v)
				s.push(v)
			case 1:
				v, ok := st.Pop()
				w, had := s.back()
				s.took("Pop", v, ok, w, had)
				if had {
					s.popBack()
				}
			case 2:
				v, ok := st.Peek()
				w, had := s.back()
				s.took("Peek", v, ok, w, had)
			case 3:
				if k := st.Len(); k != len(s.model) {
					s.fail("len", "Len is %d instead of %d", k, len(s.model))
				}
			}
		}
	}
	return s
}

func seqScenario(mk func(e *Env) *seqRunner) func(e *Env) {
	return func(e *Env) {
		sim.NoSched(func() {
			var rs []*seqRunner
			for k := 1 + e.Int(2); k > 0; k-- {
				rs = append(rs, mk(e))
			}
			n := e.Range(2, 15+e.Size)
			if e.Int(2000) == 0 {
				rs[0].soak()
			}
			for i := 0; i < n; i++ {
				s := rs[e.Int(len(rs))]
				s.step(s)
				if e.Chance(3) {
					sim.GC()
				}
			}
			ops := 0
			for _, s := range rs {
				ops += s.ops
			}
			e.Note("containers=%d operations=%d", len(rs), ops)
			e.Nontrivial = ops >= 5
		})
	}
}

func init() {
	pool := "sync.Pool, which hands back or discards freed nodes as drawn"
	register(&Scenario{Name: "deque", Props: []string{"C19"}, Weight: 1, Run: seqScenario(func(e *Env) *seqRunner { return dequeRunner(e, "C19", e.Int(adapt.ElemKinds)) }),
		Real: "dsx/linkedx/dequex", Stub: pool})
	register(&Scenario{Name: "list", Props: []string{"C20"}, Weight: 1, Run: seqScenario(func(e *Env) *seqRunner { return listRunner(e, "C20", e.Int(adapt.ElemKinds), true) }),
		Real: "dsx/linkedx/listx", Stub: pool})
	register(&Scenario{Name: "queue", Props: []string{"C21"}, Weight: 1, Run: seqScenario(func(e *Env) *seqRunner { return queueRunner(e, "C21", e.Int(adapt.ElemKinds), 0) }),
		Real: "dsx/linkedx/queuex", Stub: pool})
	register(&Scenario{Name: "stack", Props: []string{"C21"}, Weight: 1, Run: seqScenario(func(e *Env) *seqRunner { return stackRunner(e, "C21", e.Int(adapt.ElemKinds), true) }),
		Real: "dsx/linkedx/stackx", Stub: pool})
	for id, n := range map[string]int{"C19": 400000, "C20": 800000, "C21": 1000000} {
		meta(&Meta{ID: id, Rule: "a run is one generated sequence of operations on one or two containers and one sequence of node pool decisions; non-trivial with at least five operations",
			Runs: map[string]int{"quick": n, "thorough": 20 * n}})
	}
}
