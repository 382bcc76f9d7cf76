package prop

import (
	"bytes"

	"verif/adapt"
	"verif/sim"
	"verif/sim/simargon2"
)

// own is a container (or a kind of calls) that one goroutine at a time has to itself.
type own struct {
	name  string
	step  func()
	final func()
}

func ownMap(e *Env, p string, ord bool) *own {
	kind := e.Int(adapt.SortedKinds)
	keys := min(Pick(e, 3, 8, 30), adapt.SortedMax[kind])
	s := newSortedModel(e, p, ord, kind, keys)
	s.noStr = true
	s.log = false
	n := "skip-list map"
	if ord {
		n = "ordered map"
	}
	return &own{n, s.op, s.final}
}

func ownSeq(e *Env, p string) *own {
	var s *seqRunner
	var n string
	switch e.Int(8) {
	case 0:
		s, n = dequeRunner(e, p, e.Int(adapt.ElemKinds)), "deque"
	case 1, 2:
		s, n = listRunner(e, p, e.Int(adapt.ElemKinds), true), "linked list"
	case 3:
		s, n = listRunner(e, p, e.Int(adapt.ElemKinds), false), "slice list"
	case 4:
		s, n = queueRunner(e, p, e.Int(adapt.ElemKinds), 0), "linked queue"
	case 5:
		s, n = queueRunner(e, p, e.Int(adapt.ElemKinds), Pick(e, 1, 2, 3, 5, 8, 60)), "ring queue"
	case 6:
		s, n = stackRunner(e, p, e.Int(adapt.ElemKinds), true), "linked stack"
	case 7:
		s, n = stackRunner(e, p, e.Int(adapt.ElemKinds), false), "slice stack"
	}
	s.quiet = true
	return &own{n, func() { s.step(s) }, nil}
}

func ownSyncMap(e *Env, p string) *own {
	m := adapt.NewSyncMap(e.Int(adapt.SyncKinds))
	st := smState{}
	for i := range st.v {
		st.v[i] = -1
	}
	v := 0
	return &own{"synchronized map", func() {
		o := &smOp{kind: e.Weighted(6, 4, 2, 3, 1, 2, 2, 2), k: e.Int(smKeys)}
		if o.kind == smSet {
			v++
			o.v = v
		}
		switch o.kind {
		case smSet:
			m.Set(o.k, o.v)
		case smGet:
			o.r = m.Get(o.k)
		case smHas:
			o.ok = m.Has(o.k)
		case smDelete:
			m.Delete(o.k)
		case smClear:
			m.Clear()
		case smSize:
			o.r = m.Size()
		case smKeysOp:
			o.rs = m.Keys()
		case smValues:
			o.rs = m.Values()
		}
		for i := range o.rs { // insertion sort: the order of a map is its own
			for j := i; j > 0 && o.rs[j-1] > o.rs[j]; j-- {
				o.rs[j-1], o.rs[j] = o.rs[j], o.rs[j-1]
			}
		}
		next, ok := o.apply(st)
		e.Check(ok, p, "syncmap", "%s on a synchronized map of one's own is wrong", o.text())
		st = next
	}, nil}
}

func ownBits(e *Env, p string) *own {
	b := adapt.NewBits(e.Int(4))
	var model uint64
	all := ^uint64(0) >> (64 - b.Width())
	check := func() {
		for i := 0; i < b.Width(); i++ {
			e.Check(b.Test(i) == (model>>i&1 == 1), p, "bitset", "Test(%d) of a %d-bit set is wrong", i, b.Width())
		}
		e.Check(b.IsEmpty() == (model == 0) && b.IsFull() == (model == all), p, "bitset", "IsEmpty or IsFull of a %d-bit set is wrong", b.Width())
	}
	return &own{"bit set", func() {
		i := e.Int(b.Width())
		switch e.Weighted(4, 3, 3, 1, 1, 1, 4) {
		case 0:
			b.Set(i)
			model |= 1 << i
		case 1:
			b.Clear(i)
			model &^= 1 << i
		case 2:
			b.Toggle(i)
			model ^= 1 << i
		case 3:
			b.ClearAll()
			model = 0
		case 4:
			b.SetAll()
			model = all
		case 5:
			b.ToggleAll()
			model ^= all
		case 6:
			check()
		}
	}, check}
}

func ownLazy(e *Env, p string) *own {
	var l adapt.Lazy
	built, want := 0, 0
	fresh := func() {
		v := e.Range(1, 1000)
		kind := e.Int(3)
		built, want = 0, v
		l = adapt.NewLazy(kind, func() int { sim.Step(210); built++; return v })
	}
	fresh()
	return &own{"lazy value", func() {
		if e.Chance(20) {
			fresh()
			return
		}
		g := l.Get()
		e.Check(g == want && built == 1, p, "lazy", "Get of a lazy value of one's own gave %d instead of %d after %d constructions", g, want, built)
	}, nil}
}

func ownDiffer(e *Env, p string) *own {
	d := adapt.NewDiffer()
	return &own{"differ", func() {
		t0 := sim.Now()
		d.Start()
		t1 := sim.Now()
		if e.Chance(50) {
			sim.Sleep(int64(e.Range(1, 100000)))
		}
		t2 := sim.Now()
		d.End()
		t3 := sim.Now()
		g := d.GetDiff()
		e.Check(g >= t2-t1 && g <= t3-t0, p, "differ", "a differ of one's own measured %d ns, between %d and %d ns elapsed", g, t2-t1, t3-t0)
	}, nil}
}

func ownCipher(e *Env, p string) *own {
	mode := e.Int(3)
	c := adapt.CipherOf(mode)
	key := []byte(sim.Sprintf("key-%d", e.Int(3)))
	var kept, data []byte
	return &own{"cipher " + c.Name, func() {
		if kept != nil && e.Chance(50) {
			out, err := c.Dec(kept, key)
			e.Check(err == nil && bytes.Equal(out, data), p, "cipher", "Decrypt%s of one's own record failed or gave other data", c.Name)
			return
		}
		data = e.fill(16*e.Int(5), 0)
		out, err := c.Enc(bytes.Clone(data), bytes.Clone(key))
		e.Check(err == nil, p, "cipher", "Encrypt%s failed", c.Name)
		kept = out
	}, func() {
		if kept != nil {
			out, err := c.Dec(kept, key)
			e.Check(err == nil && bytes.Equal(out, data), p, "cipher", "Decrypt%s of one's own record failed or gave other data at the end", c.Name)
		}
	}}
}

func ownPassword(e *Env, p string) *own {
	pw := []byte(sim.Sprintf("secret-%d", e.Int(1000)))
	bad := []byte("another")
	level := e.Range(1, 4)
	var kept []byte
	return &own{"password hash", func() {
		if kept == nil {
			h, err := adapt.PassHash(pw, level)
			e.Check(err == nil, p, "password", "Hash failed")
			kept = h
			return
		}
		e.Check(adapt.PassVerify(pw, kept) == nil, p, "password", "Verify refused the password of one's own hash")
		e.Check(adapt.PassVerify(bad, kept) != nil, p, "password", "Verify accepted another password for one's own hash")
	}, nil}
}

func isolateScenario(e *Env) {
	const P = "C28"
	simargon2.SetIdeal(true)
	nt := e.Range(2, 4)
	focus := -1
	if e.Chance(60) {
		focus = e.Int(9)
		if e.Chance(5) {
			focus = 9
		}
	}
	mk := func() *own {
		k := focus
		if k < 0 {
			k = e.Int(10)
		}
		switch k {
		case 0:
			return ownMap(e, P, false)
		case 1:
			return ownMap(e, P, true)
		case 2:
			return ownSyncMap(e, P)
		case 3:
			return ownBits(e, P)
		case 4:
			return ownLazy(e, P)
		case 5:
			return ownDiffer(e, P)
		case 6:
			return ownCipher(e, P)
		case 7:
			if focus < 0 && e.Chance(50) {
				return ownPassword(e, P)
			}
		case 9:
			if focus == 9 {
				return ownPassword(e, P)
			}
		}
		return ownSeq(e, P)
	}
	ops := e.Range(2, 8+e.Size/8)
	phases := e.Weighted(0, 3, 1)
	e.Note("tasks=%d operations=%d focus=%d phases=%d", nt, ops, focus, phases)
	e.Nontrivial = ops >= 3
	shelf := make([]*own, nt)
	lives := make([]int, nt)
	for ph := 0; ph < phases; ph++ {
		var g Tasks
		for t := 0; t < nt; t++ {
			t := t
			from := (t + ph) % nt // handed over between the phases
			g.Go("user", func() {
				o := shelf[from]
				for i := 0; i < ops; i++ {
					if o == nil || e.Chance(12) {
						if o != nil && o.final != nil {
							o.final()
						}
						sim.Step(211)
						o = mk()
						lives[t]++
						sim.Log("new %s", o.name)
					}
					sim.Step(212)
					o.step()
				}
				if o.final != nil {
					o.final()
				}
				shelf[from] = o
			})
		}
		g.Join()
	}
}

func init() {
	register(&Scenario{Name: "isolate", Props: []string{"C28"}, Weight: 1, Run: isolateScenario,
		Real: "all containers of dsx, lazyx, diffx, aesx, passhashx", Stub: "goroutine scheduler, sync.Pool decisions, clocks, the random source, argon2 (an ideal hash)"})
	meta(&Meta{ID: "C28", Race: true, Rule: "a run is one set of goroutines that create, use and drop containers of their own, with one schedule; non-trivial with at least three operations per goroutine",
		Runs: map[string]int{"quick": 150000, "thorough": 3000000}})
}
