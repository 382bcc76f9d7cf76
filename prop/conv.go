package prop

import (
	"verif/adapt"
	"verif/sim"
)

const convBuiltin = 1 // the id of predefined converters in the model

type cvState [5]int16 // converter id per chosen pair, 0: none

const (
	cvRegister = iota
	cvUnregister
	cvExists
	cvInto
	cvIntoOr
)

type cvOp struct {
	kind, p, x int
	id         int // Register: the id; Into: the converter that ran (0: none)
	body       int // Register: what the converter does
	nested     []*cvOp
	d          int64
	inv, resp  int
	ok         bool
	ran        bool
}

func (o *cvOp) apply(s cvState) (cvState, bool) {
	switch o.kind {
	case cvRegister:
		s[o.p] = int16(o.id)
		return s, true
	case cvUnregister:
		s[o.p] = 0
		return s, true
	case cvExists:
		return s, o.ok == (s[o.p] != 0)
	}
	return s, o.id == int(s[o.p])
}

func convScenario(e *Env) {
	np := e.Range(1, 5)
	var pairs []int
	last := len(adapt.Convs) - 1
	for len(pairs) < np {
		p := e.Int(last + 1)
		switch e.Int(6) {
		case 0: // among the pairs that share interface types
			p = 7 + e.Int(9)
		case 1:
			p = e.Int(5)
		case 2:
			if e.Chance(25) {
				p = last
			}
		case 3: // types that share a name, or have none
			if e.Chance(40) {
				p = last - 6 + e.Int(6)
			}
		}
		dup := false
		for _, q := range pairs {
			dup = dup || q == p
		}
		if dup {
			p = (p + 1) % (last + 1)
			dup = false
			for _, q := range pairs {
				dup = dup || q == p
			}
		}
		if !dup {
			pairs = append(pairs, p)
		}
	}
	nextID := convBuiltin
	var gen func(depth int) *cvOp
	total := 0
	gen = func(depth int) *cvOp {
		total++
		o := &cvOp{kind: e.Weighted(5, 2, 2, 6, 3), p: e.Int(np), x: e.Range(0, 40)}
		if o.kind == cvRegister {
			nextID++
			o.id = nextID
			o.body = e.Weighted(5, 3, 1, 1)
			if depth < 2 && e.Chance(45) {
				for k := e.Range(1, 3); k > 0; k-- {
					o.nested = append(o.nested, gen(depth+1))
				}
			}
		}
		if e.Chance(8) {
			o.d = int64(e.Range(1, 1000)) * 1000
		}
		return o
	}
	nt := e.Range(1, 4)
	var plan [][]*cvOp
	for t := 0; t < nt; t++ {
		var ops []*cvOp
		for x := e.Range(1, 4+e.Size/16); x > 0 && total < 30; x-- {
			ops = append(ops, gen(0))
		}
		plan = append(plan, ops)
	}
	names := ""
	for _, p := range pairs {
		names = sim.Sprintf("%s %s", names, adapt.Convs[p].Name())
	}
	e.Note("pairs:%s tasks=%d ops=%d", names, nt, total)
	e.Nontrivial = total >= 3

	var hist []lop[cvState]
	ev := 0
	tick := func() int { ev++; return ev }
	var cur []*cvOp // Into operations whose converter has not started, per task
	var curT []*sim.Task
	count := 0
	var do func(o *cvOp, depth int)
	enter := func(id, p, x int) *cvOp {
		// called at the start of a converter, by the task that called Into
		t := sim.Cur()
		for i := len(cur) - 1; i >= 0; i-- {
			if curT[i] == t {
				o := cur[i]
				e.Check(!o.ran, "C10", "converted-twice", "one Into of %s ran a converter twice", adapt.Convs[pairs[o.p]].Name())
				e.Check(o.p == p, "C10", "wrong-pair", "Into of pair %s ran converter %d, which was registered for %s", adapt.Convs[pairs[o.p]].Name(), id, adapt.Convs[pairs[p]].Name())
				e.Check(o.x == x%100, "C10", "wrong-value", "the converter got the value %d instead of %d", x, o.x)
				o.ran, o.id = true, id
				o.resp = tick()
				return o
			}
		}
		e.Fail("C10", "stray-conversion", "converter %d ran outside of any Into", id)
		return nil
	}
	leave := func(o *cvOp) {
		for i := len(cur) - 1; i >= 0; i-- {
			if cur[i] == o {
				cur = sim.Remove(cur, i)
				curT = sim.Remove(curT, i)
				return
			}
		}
	}
	record := func(o *cvOp) {
		o2 := o
		hist = append(hist, lop[cvState]{inv: o.inv, resp: o.resp, apply: o2.apply, text: func() string {
			pn := adapt.Convs[pairs[o2.p]].Name()
			switch o2.kind {
			case cvRegister:
				return sim.Sprintf("Register %s #%d", pn, o2.id)
			case cvUnregister:
				return sim.Sprintf("Unregister %s", pn)
			case cvExists:
				return sim.Sprintf("Exists %s = %v", pn, o2.ok)
			}
			return sim.Sprintf("Into %s by #%d", pn, o2.id)
		}})
	}
	do = func(pl *cvOp, depth int) {
		if count >= 40 {
			return
		}
		count++
		o := &cvOp{kind: pl.kind, p: pl.p, x: pl.x, id: pl.id, body: pl.body, nested: pl.nested}
		if pl.d > 0 {
			sim.Sleep(pl.d)
		}
		if o.kind == cvRegister && pl.inv > 0 { // re-executed by a converter: a new converter
			nextID++
			o.id = nextID
		}
		pl.inv = 1
		c := adapt.Convs[pairs[o.p]]
		switch o.kind {
		case cvRegister:
			id, p, body, nested := o.id, o.p, o.body, o.nested
			o.inv = tick()
			c.Register(id, func(x int) {
				enter(id, p, x)
				if depth := x / 100; depth < 3 {
					for _, n := range nested {
						sim.Probe("nested")
						do(n, depth+1)
					}
				}
				switch body {
				case 1:
					for i := 0; i < 3; i++ {
						sim.Step(200)
					}
				case 2:
					sim.Sleep(int64(x+1) * 1000)
				case 3:
					sim.Probe("converter-panics")
					panic("converter")
				}
			})
			o.resp = tick()
			sim.Log("register %s #%d", c.Name(), id)
		case cvUnregister:
			o.inv = tick()
			c.Unregister()
			o.resp = tick()
			sim.Log("unregister %s", c.Name())
		case cvExists:
			o.inv = tick()
			o.ok = c.Exists()
			o.resp = tick()
			sim.Log("exists %s %v", c.Name(), o.ok)
		default:
			o.id = 0
			x := o.x + 100*depth
			if o.x == 0 {
				x = 0 // a nil value; such a converter nests as if at depth 0
			}
			or := 700_000 + o.x
			cur = append(cur, nil)
			cur[len(cur)-1] = o
			curT = append(curT, nil)
			curT[len(curT)-1] = sim.Cur()
			o.inv = tick()
			var r int
			var ok bool
			p, panicked := Try(func() {
				if o.kind == cvInto {
					r, ok = c.Into(x)
				} else {
					r = c.IntoOr(x, or)
					ok = r != or
				}
			})
			leave(o)
			sim.Log("into %s %d -> %d %v (converter %d, panic %v)", c.Name(), x, r, ok, o.id, panicked)
			if panicked {
				if s, is := p.(string); !is || s != "converter" || !o.ran {
					sim.Fail("crash", "Into of %s panicked: %v", c.Name(), p)
				}
				break
			}
			builtin := pairs[o.p] == len(adapt.Convs)-1
			switch {
			case o.ran:
				want := x*1000 + o.id
				e.Check(ok && r == want, "C10", "wrong-result", "Into of %s ran converter %d on %d but returned %d, %v instead of %d, true", c.Name(), o.id, x, r, ok, want)
			case ok && builtin:
				o.id = convBuiltin
				o.resp = tick()
				e.Check(r == x, "C10", "wrong-result", "the predefined conversion int>string of %d gave %d", x, r)
			case ok:
				e.Fail("C10", "no-converter", "Into of %s returned %d although no converter ran", c.Name(), r)
			default:
				o.resp = tick()
				want := 0
				if o.kind == cvIntoOr {
					want = or
				}
				e.Check(r == want, "C10", "wrong-default", "Into of %s without a converter returned %d instead of %d", c.Name(), r, want)
			}
		}
		record(o)
	}
	var init cvState
	for i, p := range pairs {
		if p == last {
			init[i] = convBuiltin
		}
	}
	var g Tasks
	for _, ops := range plan {
		ops := ops
		g.Go("user", func() {
			for _, o := range ops {
				do(o, 0)
			}
		})
	}
	g.Join()
	count = 0
	for p := 0; p < np; p++ {
		do(&cvOp{kind: cvExists, p: p}, 0)
	}
	if len(hist) > 64 {
		return
	}
	if !linearizable(init, hist) {
		e.Fail("C10", "not-linearizable", "no sequential order of one table explains this history:%s", history(hist))
	}
}

func init() {
	register(&Scenario{Name: "convx", Props: []string{"C10"}, Weight: 1, Run: convScenario,
		Real: "typex/convx", Stub: "goroutine scheduler, sync.RWMutex"})
	meta(&Meta{ID: "C10", Race: true, Rule: "a run is one generated set of type pairs, concurrent registry operations, converter bodies, schedule and fault sequence; non-trivial when at least three operations are planned",
		Runs: map[string]int{"quick": 300000, "thorough": 6000000}})
}
