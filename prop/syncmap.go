package prop

import (
	"sort"

	"verif/adapt"
	"verif/sim"
)

const smKeys = 6

type smState struct {
	v    [smKeys]int16 // -1 absent
	bulk int16         // entries of the bulk prefill still present (all or none)
}

const (
	smSet = iota
	smGet
	smHas
	smDelete
	smClear
	smSize
	smKeysOp
	smValues
	smBad
)

type smOp struct {
	kind, k, v int
	d          int64
	inv, resp  int
	r          int
	rs         []int
	ok         bool
}

func (o *smOp) apply(s smState) (smState, bool) {
	n := int(s.bulk)
	for _, v := range s.v {
		if v >= 0 {
			n++
		}
	}
	switch o.kind {
	case smSet:
		s.v[o.k] = int16(o.v)
		return s, true
	case smGet:
		want := int(s.v[o.k])
		if want < 0 {
			want = 0
		}
		return s, o.r == want
	case smHas:
		return s, o.ok == (s.v[o.k] >= 0)
	case smDelete:
		s.v[o.k] = -1
		return s, true
	case smClear:
		for i := range s.v {
			s.v[i] = -1
		}
		s.bulk = 0
		return s, true
	case smSize:
		return s, o.r == n
	case smKeysOp:
		if len(o.rs) != n {
			return s, false
		}
		j := 0 // rs is sorted
		for k, v := range s.v {
			if v >= 0 {
				if o.rs[j] != k {
					return s, false
				}
				j++
			}
		}
		for i := 0; i < int(s.bulk); i++ {
			if o.rs[j+i] != 1000+i {
				return s, false
			}
		}
		return s, true
	case smValues:
		if len(o.rs) != n {
			return s, false
		}
		var want [smKeys]int
		j := 0
		for _, v := range s.v {
			if v >= 0 {
				want[j] = int(v)
				for x := j; x > 0 && want[x-1] > want[x]; x-- {
					want[x-1], want[x] = want[x], want[x-1]
				}
				j++
			}
		}
		for i := 0; i < j; i++ {
			if o.rs[i] != want[i] {
				return s, false
			}
		}
		for i := 0; i < int(s.bulk); i++ {
			if o.rs[j+i] != 5000+i {
				return s, false
			}
		}
		return s, true
	}
	return s, true
}

func (o *smOp) text() string {
	switch o.kind {
	case smSet:
		return sim.Sprintf("Set(%d,%d)", o.k, o.v)
	case smGet:
		return sim.Sprintf("Get(%d)=%d", o.k, o.r)
	case smHas:
		return sim.Sprintf("Has(%d)=%v", o.k, o.ok)
	case smDelete:
		return sim.Sprintf("Delete(%d)", o.k)
	case smClear:
		return "Clear()"
	case smSize:
		return sim.Sprintf("Size()=%d", o.r)
	case smKeysOp, smValues:
		t := "Keys()="
		if o.kind == smValues {
			t = "Values()="
		}
		if len(o.rs) > 12 {
			return sim.Sprintf("%s(%d entries)", t, len(o.rs))
		}
		for _, x := range o.rs {
			t = sim.Sprintf("%s%d,", t, x)
		}
		return t
	}
	return "unhashable key"
}

// soakSyncMap: many entries come and go; every user has keys of its own, so that it
// knows what to find under them whatever the others do.
func soakSyncMap(e *Env) {
	kind := e.Int(adapt.SyncKinds)
	nt := e.Range(1, 3)
	keys := Pick(e, 40, 300, e.Range(10, 2000))
	n := e.Range(200, 2500)
	grow := e.Range(45, 95) // percent of changes that add
	seed := uint64(e.Int(1 << 30))
	e.Note("kind=%d soak tasks=%d keys=%d operations=%d", kind, nt, keys, n)
	e.Nontrivial = true
	sim.LongRun(n * nt * 6)
	sim.Probe("many-entries")
	m := adapt.NewSyncMap(kind)
	var g Tasks
	sizes := make([]int, nt)
	for t := 0; t < nt; t++ {
		t := t
		g.Go("user", func() {
			r := sim.NewRNG(seed + uint64(t))
			own := map[int]int{}
			snap := func() {
				ks := m.Keys()
				seen := 0
				for _, k := range ks {
					if k/2500 == t {
						seen++
						_, ok := own[k]
						e.Check(ok, "C09", "keys", "Keys lists key %d, which its only user has not in the map", k)
					}
				}
				e.Check(seen == len(own), "C09", "keys", "Keys lists %d of a user's %d keys", seen, len(own))
				e.Check(m.Size() >= len(own), "C09", "size", "Size is less than the %d keys of one user", len(own))
				if nt == 1 {
					e.Check(m.Size() == len(own), "C09", "size", "Size is %d with %d keys", m.Size(), len(own))
					vs := m.Values()
					ws := []int{}
					for _, v := range own {
						ws = append(ws, v)
					}
					sort.Ints(vs)
					sort.Ints(ws)
					same := len(vs) == len(ws)
					for i := 0; same && i < len(vs); i++ {
						same = vs[i] == ws[i]
					}
					e.Check(same, "C09", "values", "Values lists %d values that are not the %d in the map", len(vs), len(ws))
				}
			}
			for i := 0; i < n; i++ {
				sim.Did()
				k := t*2500 + r.Intn(keys)
				switch r.Intn(8) {
				case 0, 1, 2, 3:
					if r.Intn(100) < grow {
						v := 1 + r.Intn(20000)
						m.Set(k, v)
						own[k] = v
					} else {
						m.Delete(k)
						delete(own, k)
					}
				case 4, 5, 6:
					v := m.Get(k)
					e.Check(v == own[k], "C09", "get", "Get gives %d for a key under which its only user put %d", v, own[k])
				case 7:
					_, ok := own[k]
					e.Check(m.Has(k) == ok, "C09", "has", "Has reports %v for a key of one user", !ok)
				}
				if r.Intn(150) == 0 {
					snap()
				}
				if nt == 1 && r.Intn(500) == 0 {
					m.Clear()
					own = map[int]int{}
				}
			}
			snap()
			sizes[t] = len(own)
		})
	}
	g.Join()
	total := 0
	for _, x := range sizes {
		total += x
	}
	e.Check(m.Size() == total, "C09", "size", "Size is %d at the end, %d keys are in the map", m.Size(), total)
}

func syncMapScenario(e *Env) {
	if e.Int(1500) == 0 {
		soakSyncMap(e)
		return
	}
	kind := e.Int(adapt.SyncKinds)
	keys := e.Range(1, smKeys)
	bulk := 0
	if e.Chance(10) {
		bulk = e.Range(1, 60)
		if e.Chance(20) && kind != 2 {
			bulk = e.Range(100, 1500)
		}
	}
	nt := e.Range(2, 4)
	budget := e.Range(4, 10+e.Size/6)
	dup := e.Chance(20)
	nextV := 0
	val := func() int {
		if dup {
			return e.Int(4)
		}
		nextV++
		return nextV
	}
	w := []int{6, 4, 2, 3, 1, 2, 2, 2}
	for i := range w {
		if e.Chance(15) {
			w[i] = 0
		}
	}
	w[0]++
	var plan [][]*smOp
	total := 0
	for t := 0; t < nt; t++ {
		var ops []*smOp
		for x := 1 + e.Int(1+budget/nt*2); x > 0 && total < 26; x-- {
			o := &smOp{kind: e.Weighted(w...), k: e.Int(keys)}
			if o.kind == smSet {
				o.v = val()
			}
			if (kind == 3 || kind == 5) && e.Chance(8) {
				o.kind, o.v = smBad, e.Int(2)
			}
			if e.Chance(10) {
				o.d = int64(e.Range(1, 1000)) * 1000
			}
			ops = append(ops, o)
			total++
		}
		plan = append(plan, ops)
	}
	e.Note("kind=%d keys=%d bulk=%d tasks=%d ops=%d", kind, keys, bulk, nt, total)
	e.Nontrivial = total >= 3
	var init smState
	for i := range init.v {
		init.v[i] = -1
	}
	init.bulk = int16(bulk)
	m := adapt.NewSyncMap(kind)
	for i := 0; i < bulk; i++ {
		m.Set(1000+i, 5000+i)
	}
	ev := 0
	tick := func() int { ev++; return ev }
	do := func(o *smOp) {
		o.inv = tick()
		switch o.kind {
		case smSet:
			m.Set(o.k, o.v)
		case smGet:
			o.r = m.Get(o.k)
		case smHas:
			o.ok = m.Has(o.k)
		case smDelete:
			m.Delete(o.k)
		case smClear:
			m.Clear()
		case smSize:
			o.r = m.Size()
		case smKeysOp:
			o.rs = m.Keys()
		case smValues:
			o.rs = m.Values()
		case smBad:
			if ok, p := m.Bad(o.v == 1); ok {
				sim.Probe("unhashable")
				_ = p
			}
		}
		o.resp = tick()
		if o.rs != nil {
			sort.Ints(o.rs)
		}
		sim.Log("%s", o.text())
	}
	var g Tasks
	for _, ops := range plan {
		ops := ops
		g.Go("user", func() {
			for _, o := range ops {
				if o.d > 0 {
					sim.Sleep(o.d)
				}
				do(o)
			}
		})
	}
	g.Join()
	var hist []lop[smState]
	add := func(o *smOp) {
		hist = append(hist, lop[smState]{inv: o.inv, resp: o.resp, apply: o.apply, text: o.text})
	}
	for _, ops := range plan {
		for _, o := range ops {
			add(o)
		}
	}
	for _, k := range []int{smSize, smKeysOp, smValues} {
		o := &smOp{kind: k}
		do(o)
		add(o)
	}
	for k := 0; k < keys; k++ {
		o := &smOp{kind: smGet, k: k}
		do(o)
		add(o)
	}
	if !linearizable(init, hist) {
		e.Fail("C09", "not-linearizable", "no sequential order of an ordinary map explains this history:%s", history(hist))
	}
}

func init() {
	register(&Scenario{Name: "syncmap", Props: []string{"C09"}, Weight: 1, Run: syncMapScenario,
		Real: "dsx/mapx/syncmapx", Stub: "goroutine scheduler, sync.RWMutex, map iteration order"})
	meta(&Meta{ID: "C09", Race: true, Rule: "a run is one generated set of concurrent operations, schedule and fault sequence; non-trivial when at least three operations run",
		Runs: map[string]int{"quick": 300000, "thorough": 6000000}})
}
