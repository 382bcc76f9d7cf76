package prop

import (
	"verif/adapt"
	"verif/sim"
)

const (
	opGet = iota
	opPut
	opForeign // put an object that did not come from a pool
	opMove    // get from one pool, put into another
	opGC
	opBadGet // a Get whose constructor, if used, panics
)

type objOp struct {
	kind, pool, to int
	hold           int64
}

const (
	objNew = iota
	objHeld
	objPooled
)

type objState struct {
	state, pool, holder, content int
	fresh                        bool // made by a constructor and not handed out yet
}

func objPoolScenario(e *Env) {
	np := 1
	if e.Chance(35) {
		np = e.Range(2, 3)
	}
	kind := e.Int(4)
	nt := e.Range(1, 4)
	w := []int{6, 5, 1, 1, 1, 1}
	for i := 2; i < len(w); i++ {
		if e.Chance(30) {
			w[i] = 0
		}
	}
	plan := make([][]objOp, nt)
	total := 0
	big := e.Int(1500) == 0
	if big {
		w[0] += 6 * e.Int(2) // hold many
		sim.LongRun(20_000)
		sim.Probe("many-objects")
	}
	for t := range plan {
		n := e.Range(1, 4+e.Size/8)
		if big && t == 0 {
			n = e.Range(100, 700)
		}
		for x := n; x > 0; x-- {
			o := objOp{kind: e.Weighted(w...), pool: e.Int(np), to: e.Int(np)}
			if e.Chance(20) {
				o.hold = int64(e.Range(1, 2000)) * 1000
			}
			plan[t] = append(plan[t], o)
			total++
		}
	}
	twice := e.Chance(10)
	e.Note("kind=%d pools=%d tasks=%d ops=%d", kind, np, nt, total)
	e.Nontrivial = total >= 3

	var objs []objState
	bad := make([]*sim.Task, 0)
	made := func(p int, fresh bool) int {
		objs = append(objs, objState{state: objNew, pool: p, fresh: fresh})
		return len(objs) // identities start at 1
	}
	pools := make([]adapt.ObjPool, np)
	for p := range pools {
		p := p
		pools[p] = adapt.NewObjPool(kind)
		if twice {
			pools[p].Init(func() int {
				e.Fail("C22", "wrong-constructor", "a constructor was used that a later Init had replaced")
				return made(p, true)
			})
		}
		pools[p].Init(func() int {
			sim.Step(201)
			for _, b := range bad {
				if b == sim.Cur() {
					sim.Probe("constructor-panic")
					sim.Fault("constructor-panic")
					panic("constructor failed")
				}
			}
			return made(p, true)
		})
	}
	seq := 0
	get := func(t, p int, mayFail bool) adapt.Obj {
		var o adapt.Obj
		v, panicked := Try(func() { o = pools[p].Get() })
		if panicked {
			e.Check(mayFail && v == "constructor failed", "C22", "get-panic", "Get panicked: %v", sim.Sprintf("%v", v))
			return nil
		}
		if o == nil {
			e.Fail("C22", "nil-object", "Get returned nil although the constructor did not")
			return nil
		}
		id := o.ID()
		if id < 1 || id > len(objs) {
			e.Fail("C22", "unknown-object", "Get returned an object nobody made (identity %d)", id)
			return nil
		}
		s := &objs[id-1]
		e.Check(s.state != objHeld, "C22", "two-holders", "Get handed task %d object %d, which task %d still holds", t, id, s.holder)
		e.Check(s.state == objPooled || s.fresh, "C22", "unput-object", "Get handed out object %d, which is neither fresh nor was it put", id)
		e.Check(s.pool == p, "C22", "wrong-pool", "Get on pool %d handed out object %d of pool %d", p, id, s.pool)
		got := o.Read()
		e.Check(got == s.content, "C22", "content", "object %d arrived with content %d, its previous holder left %d", id, got, s.content)
		s.state, s.holder, s.fresh = objHeld, t, false
		return o
	}
	put := func(o adapt.Obj, p int) {
		s := &objs[o.ID()-1]
		s.state, s.pool = objPooled, p
		pools[p].Put(o)
	}
	write := func(t int, o adapt.Obj) {
		seq++
		sim.Did()
		s := &objs[o.ID()-1]
		v := seq
		s.content = v
		o.Write(v)
		sim.Step(202)
		e.Check(o.Read() == v && s.holder == t && s.state == objHeld, "C22", "shared", "object %d changed while task %d alone held it", o.ID(), t)
	}
	var g Tasks
	for t := range plan {
		t := t
		g.Go("user", func() {
			var held []adapt.Obj
			for i := range plan[t] {
				op := &plan[t][i]
				switch op.kind {
				case opGet, opBadGet:
					if op.kind == opBadGet {
						bad = append(bad, nil)
						bad[len(bad)-1] = sim.Cur()
					}
					o := get(t, op.pool, op.kind == opBadGet)
					if op.kind == opBadGet {
						for j := range bad {
							if bad[j] == sim.Cur() {
								bad[j] = nil
							}
						}
					}
					if o == nil {
						break
					}
					write(t, o)
					held = append(held, nil)
					held[len(held)-1] = o
				case opPut:
					if len(held) == 0 {
						break
					}
					o := held[len(held)-1]
					held = held[:len(held)-1]
					put(o, objs[o.ID()-1].pool)
				case opForeign:
					id := made(op.pool, false)
					o := pools[op.pool].Make(id)
					objs[id-1].state, objs[id-1].holder = objHeld, t
					write(t, o)
					put(o, op.pool)
				case opMove:
					o := get(t, op.pool, false)
					if o == nil {
						break
					}
					write(t, o)
					put(o, op.to)
				case opGC:
					sim.Fault("gc-purge")
					sim.GC()
				}
				if op.hold > 0 {
					sim.Sleep(op.hold)
				}
				for _, o := range held {
					id := o.ID()
					e.Check(objs[id-1].state == objHeld && objs[id-1].holder == t && o.Read() == objs[id-1].content, "C22", "shared",
						"object %d changed while task %d alone held it", id, t)
				}
			}
			if t%2 == 0 {
				for len(held) > 0 {
					o := held[len(held)-1]
					held = held[:len(held)-1]
					put(o, objs[o.ID()-1].pool)
				}
			}
		})
	}
	g.Join()
	for i := range objs {
		e.Check(!objs[i].fresh, "C22", "constructed-unused", "the constructor made object %d but no Get returned it", i+1)
	}
}

func init() {
	register(&Scenario{Name: "objpool", Props: []string{"C22"}, Weight: 1, Run: objPoolScenario,
		Real: "syncx/syncpoolx", Stub: "goroutine scheduler, sync.Pool (pooling decisions drawn), garbage collection"})
	meta(&Meta{ID: "C22", Race: true, Rule: "a run is one generated set of concurrent Get and Put calls, schedule, pooling and purge decisions; non-trivial when at least three operations run",
		Runs: map[string]int{"quick": 300000, "thorough": 6000000}})
}
