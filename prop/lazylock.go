package prop

import (
	"verif/adapt"
	"verif/sim"
)

func lazyScenario(e *Env) {
	nl := e.Range(1, 4)
	type lz struct {
		kind, val    int
		body         int // 0 instant, 1 steps, 2 sleep, 3 fails by panicking
		d            int64
		uses         int // index of a lazy value the constructor gets first, -1
		ctors        int
		built        bool
		failed       bool
		got          bool
		l            adapt.Lazy
		firstGetAt   bool
		waitedInCtor bool
	}
	ls := make([]*lz, nl)
	nt := e.Range(1, 6)
	for i := range ls {
		ls[i] = &lz{kind: e.Int(adapt.LazyKinds), val: e.Range(0, 30), body: e.Weighted(4, 4, 4, 1), d: int64(e.Range(1, 5000)) * 1000, uses: -1}
		if ls[i].kind == 3 {
			ls[i].val = 0
		}
		if i > 0 && e.Chance(30) {
			ls[i].uses = e.Int(i)
		}
	}
	type op struct {
		l int
		d int64
	}
	var plan [][]op
	n := 0
	for t := 0; t < nt; t++ {
		var ops []op
		for x := e.Range(1, 4); x > 0; x-- {
			o := op{l: e.Int(nl)}
			if e.Chance(25) {
				o.d = int64(e.Range(1, 5000)) * 1000
			}
			ops = append(ops, o)
			n++
		}
		plan = append(plan, ops)
	}
	e.Note("lazies=%d tasks=%d gets=%d", nl, nt, n)
	e.Nontrivial = n >= 2
	var get func(i int)
	get = func(i int) {
		l := ls[i]
		l.firstGetAt = true
		v := 0
		p, panicked := Try(func() { v = l.l.Get() })
		sim.Log("get %d -> %d (panic %v)", i, v, panicked)
		if panicked {
			if s, ok := p.(string); !ok || s != "constructor" {
				sim.Fail("crash", "Get panicked: %v", p)
			}
			return
		}
		if l.failed {
			return
		}
		e.Check(l.ctors == 1, "C11", "not-constructed", "Get returned %d although the constructor was called %d times", v, l.ctors)
		e.Check(l.built, "C11", "early", "Get returned %d before the constructor had finished", v)
		e.Check(v == l.val, "C11", "incomplete", "Get returned %d (-9: incomplete) instead of %d", v, l.val)
		if !l.got {
			l.got = true
		} else {
			sim.Probe("get-again")
		}
	}
	for i := range ls {
		i := i
		l := ls[i]
		l.l = adapt.NewLazy(l.kind, func() int {
			l.ctors++
			e.Check(l.firstGetAt, "C11", "eager", "the constructor ran before any Get")
			e.Check(l.ctors == 1, "C11", "constructed-twice", "the constructor of lazy value %d was called %d times", i, l.ctors)
			if l.uses >= 0 {
				get(l.uses)
			}
			switch l.body {
			case 1:
				for k := int64(0); k < l.d/1000%6; k++ {
					sim.Step(200)
				}
			case 2:
				sim.Sleep(l.d)
			case 3:
				l.failed = true
				panic("constructor")
			}
			l.built = true
			return l.val
		})
	}
	sim.WaitIdle()
	for i, l := range ls {
		e.Check(l.ctors == 0, "C11", "eager", "the constructor of lazy value %d ran before any Get", i)
	}
	var g Tasks
	for _, ops := range plan {
		ops := ops
		g.Go("getter", func() {
			for _, o := range ops {
				if o.d > 0 {
					sim.Sleep(o.d)
				}
				get(o.l)
			}
		})
	}
	g.Join()
	sim.WaitIdle()
	for i, l := range ls {
		if l.firstGetAt {
			get(i)
			e.Check(l.ctors == 1, "C11", "constructed-twice", "the constructor of lazy value %d was called %d times", i, l.ctors)
		} else {
			e.Check(l.ctors == 0, "C11", "eager", "the constructor of lazy value %d ran without any Get", i)
		}
	}
}

// manyLocks: a chain of nested callbacks over many objects; a lock shared by two
// objects would block the chain or keep two unrelated callbacks apart.
func manyLocks(e *Env) {
	n := Pick(e, 12, 16, 60, 100, e.Range(2, 200))
	k := e.Int(adapt.LockKinds)
	depth := n
	if e.Chance(50) {
		depth = e.Range(1, n)
	}
	rounds := e.Range(1, 3)
	nt := e.Range(1, 3)
	e.Note("kind=%d objects=%d depth=%d rounds=%d tasks=%d", k, n, depth, rounds, nt)
	e.Nontrivial = true
	sim.LongRun(n * 400)
	l := adapt.NewLocked(k, n)
	val := make([]int, n)
	in := make([]bool, n)
	sim.Probe("many-objects")
	var chain func(i, left int)
	chain = func(i, left int) {
		ran := 0
		l.Lock(i, func(own bool, get func() int, set func(int)) {
			ran++
			e.Check(own, "C12", "pointer", "the callback was given another pointer than the object's own")
			e.Check(!in[i], "C12", "overlap", "2 callbacks run on one object at the same time")
			in[i] = true
			sim.Did()
			v := get()
			e.Check(v == val[i], "C12", "stale", "the callback found %d in the object, %d callbacks ran before it", v, val[i])
			if left > 1 && i+1 < n {
				chain(i+1, left-1)
			}
			set(v + 1)
			val[i] = v + 1
			in[i] = false
		})
		e.Check(ran == 1, "C12", "not-called", "Lock returned although its callback ran %d times", ran)
	}
	var g Tasks
	for t := 0; t < nt; t++ {
		from := e.Int(n)
		if e.Chance(50) {
			from = 0
		}
		g.Go("locker", func() {
			for r := 0; r < rounds; r++ {
				chain(from, depth)
			}
		})
	}
	g.Join()
	// one task per object; the callbacks return only when all are running
	if e.Chance(50) {
		var parked []*sim.Task
		inside := 0
		for i := 0; i < n; i++ {
			i := i
			g.Go("meeter", func() {
				l.Lock(i, func(own bool, get func() int, set func(int)) {
					inside++
					if inside == n {
						for _, t := range parked {
							sim.Ready(t)
						}
						return
					}
					for inside < n {
						parked = append(parked, nil)
						parked[len(parked)-1] = sim.Cur()
						sim.Park("other objects' callbacks")
					}
				})
			})
		}
		g.Join()
	}
	for i := range val {
		v := -1
		l.Lock(i, func(own bool, get func() int, set func(int)) { v = get() })
		e.Check(v == val[i], "C12", "stale", "at the end the object holds %d instead of %d", v, val[i])
	}
}

func lockScenario(e *Env) {
	if e.Int(700) == 0 {
		manyLocks(e)
		return
	}
	ng := e.Range(1, 2)
	type obj struct {
		inside int
		calls  int
		val    int
	}
	type group struct {
		l    adapt.Locked
		objs []obj
	}
	gs := make([]*group, ng)
	note, empty := "", false
	for i := range gs {
		n := e.Range(1, 3)
		k := e.Int(adapt.LockKinds)
		note = sim.Sprintf("%s kind=%d objects=%d", note, k, n)
		if none := e.Chance(8); none && !empty {
			// only one: different objects without a size may have one address
			empty = true
			note = sim.Sprintf("%s (no size %d)", note, k%3)
			gs[i] = &group{l: adapt.NewLockedEmpty(k % 3), objs: make([]obj, 1)}
			continue
		}
		gs[i] = &group{l: adapt.NewLocked(k, n), objs: make([]obj, n)}
	}
	type op struct {
		g, i  int
		body  int // 0 instant, 1 steps, 2 sleep, 3 locks a later object too, 4 waits for a callback on another object
		d     int64
		g2    int
		i2    int
		think int64
	}
	nt := e.Range(2, 5)
	var plan [][]op
	n := 0
	for t := 0; t < nt; t++ {
		var ops []op
		for x := e.Range(1, 3+e.Size/20); x > 0; x-- {
			g := e.Int(ng)
			o := op{g: g, i: e.Int(len(gs[g].objs)), body: e.Weighted(3, 4, 3, 3), d: int64(e.Range(1, 3000)) * 1000}
			if o.body == 3 { // in a global order, so that they cannot deadlock by themselves
				o.g2, o.i2 = o.g, o.i+1
				if o.i2 >= len(gs[o.g].objs) {
					o.g2, o.i2 = o.g+1, 0
				}
				if o.g2 >= ng || empty {
					o.body = 1
				}
			}
			if e.Chance(20) {
				o.think = int64(e.Range(1, 3000)) * 1000
			}
			ops = append(ops, o)
			n++
		}
		plan = append(plan, ops)
	}
	// callbacks on two different objects that only return when both are running
	meet := e.Chance(25) && !empty && (len(gs[0].objs) > 1 || ng > 1)
	e.Note("%s tasks=%d locks=%d meet=%v", note, nt, n, meet)
	e.Nontrivial = n >= 2
	var lock func(o op, nested bool)
	lock = func(o op, nested bool) {
		gr := gs[o.g]
		ob := &gr.objs[o.i]
		mine := 0
		gr.l.Lock(o.i, func(own bool, get func() int, set func(int)) {
			mine++
			e.Check(mine == 1, "C12", "called-twice", "one Lock ran its callback %d times", mine)
			e.Check(own, "C12", "pointer", "the callback was given another pointer than the object's own")
			ob.inside++
			e.Check(ob.inside == 1, "C12", "overlap", "%d callbacks run on one object at the same time", ob.inside)
			v := get()
			e.Check(v == ob.val, "C12", "stale", "the callback found %d in the object, %d callbacks ran before it", v, ob.val)
			switch o.body {
			case 1:
				for k := int64(0); k < 1+o.d/1000%5; k++ {
					sim.Step(200)
				}
			case 2:
				sim.Sleep(o.d)
			case 3:
				if !nested {
					sim.Probe("nested-lock")
					lock(op{g: o.g2, i: o.i2, body: 1, d: o.d}, true)
				}
			}
			set(v + 1)
			ob.val = v + 1
			e.Check(ob.inside == 1, "C12", "overlap", "%d callbacks run on one object at the same time", ob.inside)
			ob.inside--
			sim.Probe("locked")
		})
		e.Check(mine == 1, "C12", "not-called", "Lock returned although its callback ran %d times", mine)
		ob.calls++
		sim.Log("lock %d.%d -> %d", o.g, o.i, ob.calls)
	}
	var g Tasks
	for _, ops := range plan {
		ops := ops
		g.Go("locker", func() {
			for _, o := range ops {
				if o.think > 0 {
					sim.Sleep(o.think)
				}
				lock(o, false)
			}
		})
	}
	if meet {
		a, b := [2]int{0, 0}, [2]int{0, 1}
		if len(gs[0].objs) < 2 {
			b = [2]int{1, 0}
		}
		in := 0
		var parked []*sim.Task
		// only one such pair and no nesting in between them: run after the others
		g.Join()
		for _, x := range [][2]int{a, b} {
			x := x
			g.Go("meeter", func() {
				gs[x[0]].l.Lock(x[1], func(own bool, get func() int, set func(int)) {
					in++
					for _, t := range parked {
						sim.Ready(t)
					}
					for in < 2 {
						parked = append(parked, nil)
						parked[len(parked)-1] = sim.Cur()
						sim.Park("other object's callback")
					}
				})
			})
		}
		sim.Probe("meet")
	}
	g.Join()
	for _, gr := range gs {
		for i := range gr.objs {
			v := -1
			gr.l.Lock(i, func(own bool, get func() int, set func(int)) { v = get() })
			e.Check(v == gr.objs[i].val, "C12", "stale", "at the end the object holds %d instead of %d", v, gr.objs[i].val)
			e.Check(gr.objs[i].val == gr.objs[i].calls, "C12", "lost", "%d Lock calls returned but %d callbacks ran", gr.objs[i].calls, gr.objs[i].val)
		}
	}
}

func init() {
	register(&Scenario{Name: "lazy", Props: []string{"C11"}, Weight: 1, Run: lazyScenario,
		Real: "functionalx/lazyx", Stub: "goroutine scheduler, sync.Once"})
	meta(&Meta{ID: "C11", Race: true, Rule: "a run is one generated set of lazy values, constructor behaviours and concurrent Gets, schedule and fault sequence; non-trivial when at least two Gets are made",
		Runs: map[string]int{"quick": 300000, "thorough": 6000000}})
	register(&Scenario{Name: "lock", Props: []string{"C12"}, Weight: 1, Run: lockScenario,
		Real: "syncx/lockx", Stub: "goroutine scheduler, sync primitives, sync/atomic scheduling points, runtime.Gosched"})
	meta(&Meta{ID: "C12", Race: true, Rule: "a run is one generated set of objects of some type and concurrent, possibly nested Lock calls, schedule and fault sequence; non-trivial when at least two Lock calls are made",
		Runs: map[string]int{"quick": 300000, "thorough": 6000000}})
}
