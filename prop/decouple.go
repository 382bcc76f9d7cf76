package prop

import (
	"verif/adapt"
	"verif/sim"
)

type dmsg struct {
	id, n, spare int
	inv, resp    int
	accepted     bool
	dropped      int // calls of the drop function
	dropN        int
	dropBad      bool
	occ          int // most messages unconsumed or in progress during the call, itself included
	open         bool
	views        int
	viewAt       int
	consumed     bool // the Next that delivered it has returned
	left         bool
}

type dview struct {
	kind int // 0 instant, 1 steps, 2 sleep, 3 gate, 4 nested write, 5 nil view
	d    int64
	m    *dmsg
}

func decouplerScenario(e *Env) {
	if e.Int(700) == 0 {
		soakScenario(e)
		return
	}
	size := e.Range(1, 4)
	if e.Chance(25) {
		size = e.Range(5, 16)
	}
	if e.Chance(1) {
		size = 0 // nothing is ever accepted
	}
	silent := e.Chance(6)
	var msgs []*dmsg
	mk := func() *dmsg {
		if len(msgs) >= 250 {
			return nil
		}
		m := &dmsg{id: len(msgs) + 1}
		switch e.Int(4) {
		case 0:
			m.n = 1
		case 1:
			m.n = e.Range(2, 8)
		case 2:
			m.n = e.Range(1, 70)
		default:
			m.n = 5
		}
		if e.Chance(4) {
			m.n = 0
		}
		if e.Chance(3) {
			m.n = e.Range(100, 5000)
		}
		m.spare = e.Int(2) * 16
		m.dropN = e.Int(9)
		m.dropBad = e.Chance(50)
		msgs = append(msgs, m)
		return m
	}
	phases := e.Range(1, 3)
	type op struct {
		m *dmsg
		d int64
	}
	type phase struct {
		writers [][]op
		views   []dview
		drain   bool
		partial int
		reader  bool
	}
	plan := make([]phase, phases)
	nilOK := true
	for i := range plan {
		p := &plan[i]
		nw := e.Range(1, 4)
		if nw > 1 {
			nilOK = false
		}
		for k := 0; k < nw; k++ {
			var ops []op
			for x := e.Range(1, 2+size/2+e.Size/12); x > 0; x-- {
				if e.Chance(15) {
					ops = append(ops, op{d: int64(e.Range(1, 2000)) * 1000})
				} else if m := mk(); m != nil {
					ops = append(ops, op{m: m})
				}
			}
			p.writers = append(p.writers, ops)
		}
		p.reader = e.Chance(75)
		for x := e.Range(0, 4+e.Size/6); x > 0; x-- {
			v := dview{kind: e.Weighted(6, 4, 3, 2, 2, 1)}
			v.d = int64(e.Range(1, 2000)) * 1000
			if v.kind == 4 {
				if v.m = mk(); v.m == nil {
					v.kind = 0
				}
				nilOK = false // a second source of writes
			}
			p.views = append(p.views, v)
		}
		p.drain = i == phases-1 || e.Chance(60)
		p.partial = e.Int(size + 1)
	}
	e.Note("size=%d phases=%d messages=%d silent=%v", size, phases, len(msgs), silent)
	e.Nontrivial = len(msgs) >= 2

	ev := 0
	tick := func() int { ev++; return ev }
	occ := 0
	var delivered []*dmsg
	opened := false
	var gates []*gate
	nexts := 0 // Next calls in progress that have not delivered yet
	var d *adapt.Decoupler
	var drop func(id, n int) (int, bool)
	var curWrite []*dmsg // writes in progress
	if !silent {
		drop = func(id, n int) (int, bool) {
			if n == 0 {
				// which empty write this is does not matter; find one in progress
				for _, m := range curWrite {
					if m.n == 0 && m.dropped == 0 {
						m.dropped++
						return m.dropN, m.dropBad
					}
				}
				e.Fail("C06", "drop-unasked", "the drop function was called with an empty message although no empty Write is waiting for it")
				return 0, false
			}
			if id < 1 || id > len(msgs) || n != msgs[id-1].n {
				e.Fail("C06", "drop-changed", "the drop function was given bytes that differ from those written (id %d, %d bytes)", id, n)
				return 0, false
			}
			m := msgs[id-1]
			m.dropped++
			e.Check(m.dropped == 1, "C06", "drop-twice", "the drop function was called %d times for message %d", m.dropped, id)
			e.Check(m.inv > 0 && m.resp == 0, "C06", "drop-late", "the drop function was called for message %d outside of its Write", id)
			return m.dropN, m.dropBad
		}
	}
	leave := func(m *dmsg) {
		if m.consumed && m.resp > 0 && !m.left {
			m.left = true
			occ--
		}
	}
	write := func(m *dmsg) {
		m.inv = tick()
		if m.n > 0 {
			occ++
		}
		m.open = true
		m.occ = occ
		curWrite = append(curWrite, m)
		for _, x := range curWrite {
			if x.occ < occ {
				x.occ = occ
			}
		}
		k, bad, changed := d.Write(m.id, m.n, m.spare)
		m.resp = tick()
		m.open = false
		for i, x := range curWrite {
			if x == m {
				curWrite = sim.Remove(curWrite, i)
				break
			}
		}
		sim.Log("write %d (%d bytes) -> %d %v dropped=%d", m.id, m.n, k, bad, m.dropped)
		e.Check(!changed, "C05", "input-modified", "Write changed the caller's bytes of message %d", m.id)
		if silent {
			e.Check(k == m.n && !bad, "C06", "result", "Write of message %d (%d bytes) returned %d, error %v", m.id, m.n, k, bad)
			m.accepted = m.n > 0 && (m.views > 0 || m.occ-1 < size) // otherwise unknown
			if m.n > 0 && !m.accepted {
				// it may have been dropped; it counts as unconsumed until seen otherwise
				return
			}
		} else if m.dropped > 0 {
			e.Check(k == m.dropN && bad == m.dropBad, "C06", "drop-result", "the drop function returned (%d, error %v) for message %d but Write returned (%d, error %v)", m.dropN, m.dropBad, m.id, k, bad)
			e.Check(m.views == 0, "C05", "dropped-delivered", "message %d was handed to the drop function but also delivered", m.id)
			if m.n > 0 {
				occ--
				sim.Probe("dropped")
				e.Check(m.occ-1 >= size, "C06", "dropped-not-full", "message %d was dropped although never more than %d of %d messages were unconsumed or being written during the call", m.id, m.occ-1, size)
			}
			return
		} else {
			e.Check(m.n > 0, "C06", "empty-not-dropped", "an empty message was not handed to the drop function")
			e.Check(k == m.n && !bad, "C06", "result", "Write accepted message %d of %d bytes but returned %d, error %v", m.id, m.n, k, bad)
			m.accepted = true
		}
		leave(m)
		if m.accepted && !silent {
			n := -nexts
			for _, x := range msgs {
				if x.accepted && x.resp > 0 && x.views == 0 {
					n++
				}
			}
			e.Check(n <= size, "C06", "over-capacity", "%d messages are accepted and unconsumed, the size is %d", n, size)
			if n >= size {
				sim.Probe("buffer-full")
			}
		}
	}
	nilViews := 0
	next := func(v dview) bool {
		inv := tick()
		waiting := 0
		var wid int
		for _, m := range msgs {
			if m.accepted && m.resp > 0 && m.views == 0 {
				waiting++
				wid = m.id
			}
		}
		waiting -= nilViews
		var got *dmsg
		var view func(id, n int)
		nexts++
		if v.kind != 5 {
			view = func(id, n int) {
				nexts--
				e.Check(got == nil, "C05", "viewed-twice", "one Next called its view twice")
				if id < 1 || id > len(msgs) {
					e.Fail("C05", "corrupt", "a view was given bytes nobody wrote (%d bytes)", n)
					return
				}
				m := msgs[id-1]
				got = m
				sim.Log("view %d", id)
				e.Check(n == m.n, "C05", "corrupt", "message %d has %d bytes but the view was given %d", id, m.n, n)
				e.Check(m.inv > 0, "C05", "not-written", "message %d was delivered before it was written", id)
				e.Check(m.dropped == 0, "C05", "dropped-delivered", "message %d was handed to the drop function but also delivered", id)
				m.views++
				m.viewAt = tick()
				e.Check(m.views == 1, "C05", "delivered-twice", "message %d was delivered %d times", id, m.views)
				delivered = append(delivered, m)
				switch v.kind {
				case 1:
					for i := int64(0); i < v.d%7; i++ {
						sim.Step(200)
					}
				case 2:
					sim.Sleep(v.d)
				case 3:
					g := &gate{t: sim.Cur(), open: opened}
					gates = append(gates, g)
					for !g.open {
						sim.Park("view at gate")
					}
				case 4:
					write(v.m)
				}
			}
		}
		ok := d.Next(view, func(id int) {
			e.Fail("C05", "view-overwritten", "the bytes of message %d changed while its view was running", id)
		})
		if got == nil {
			nexts--
		}
		resp := tick()
		_ = inv
		sim.Log("next -> %v", ok)
		if ok {
			if v.kind == 5 {
				nilViews++
				sim.Probe("nil-view")
				// single writer: it must have been the oldest message
				for _, m := range msgs {
					if m.inv > 0 && m.n > 0 && m.dropped == 0 && m.views == 0 && (!silent || m.accepted) {
						m.views, m.viewAt = 1, resp
						nilViews--
						got = m
						delivered = append(delivered, m)
						break
					}
				}
			}
			e.Check(got != nil, "C05", "nothing-delivered", "Next reported true but delivered nothing")
			if got != nil && !got.consumed {
				got.consumed = true
				leave(got)
			}
			sim.Probe("delivered")
		} else {
			e.Check(got == nil, "C06", "false-after-delivery", "Next called its view but reported false")
			e.Check(waiting <= 0, "C06", "false-empty", "Next reported false although %d completed writes (message %d) were waiting when it was called", waiting, wid)
			sim.Probe("next-empty")
		}
		return ok
	}

	d = adapt.NewDecoupler(size, drop)
	for i := range plan {
		p := &plan[i]
		var g, rd Tasks
		opened = false
		for _, ops := range p.writers {
			ops := ops
			g.Go("writer", func() {
				for _, o := range ops {
					if o.m != nil {
						write(o.m)
					} else {
						sim.Sleep(o.d)
					}
				}
			})
		}
		if p.reader {
			rd.Go("reader", func() {
				for _, v := range p.views {
					if v.kind == 5 && (!nilOK || silent) {
						v.kind = 0
					}
					if !next(v) && v.d%3 == 0 {
						sim.Sleep(v.d)
					}
				}
			})
		}
		g.Join() // writers must get through even when a view never returns
		opened = true
		for _, x := range gates {
			x.open = true
			sim.Ready(x.t)
		}
		gates = nil
		rd.Join()
		if p.drain {
			limit := len(msgs) + 2
			for next(dview{}) {
				if limit--; limit < 0 {
					e.Fail("C05", "delivered-twice", "draining does not end")
				}
			}
			for _, m := range msgs {
				if m.accepted && m.resp > 0 && m.views == 0 {
					e.Fail("C05", "lost", "message %d was accepted but is not delivered when draining", m.id)
					e.Fail("C06", "lost", "message %d was accepted but draining ended without it", m.id)
				}
			}
			e.Check(!next(dview{}), "C06", "not-drained", "Next reported true after draining")
		} else {
			for k := 0; k < p.partial; k++ {
				next(dview{})
			}
		}
	}
	for i, a := range delivered {
		for _, b := range delivered[i+1:] {
			// b was delivered after a: b's write must not have returned before a's began
			if b.resp > 0 && b.resp < a.inv {
				e.Fail("C05", "out-of-order", "message %d was delivered before message %d although it was written after it", a.id, b.id)
			}
		}
	}
}

// soakScenario: a long-lived decoupler of any size and very many messages, for what
// only shows when positions have come far or slots have been used often.
func soakScenario(e *Env) {
	size := Pick(e, 1, 2, 3, 7, 8, 9, 15, 16, 17, 64, 100, 127, 128, 255, 256, 257, 300, 1000, e.Range(1, 2000))
	total := e.Range(100, 2500)
	if e.Int(60) == 0 {
		total = e.Range(66_000, 70_000)
		size = Pick(e, 1, 2, 5, 300, 4096)
	}
	if size > total/2 {
		total = 2*size + e.Int(size)
	}
	sim.LongRun(total * 30)
	big := e.Chance(30)
	nw := Pick(e, 1, 1, 1, 2, 3)
	burst := Pick(e, 1, 3, size+2)
	if nw > 1 {
		total = min(total, 3000)
	}
	e.Note("soak size=%d messages=%d writers=%d burst=%d", size, total, nw, burst)
	e.Nontrivial = true
	var drops int
	d := adapt.NewDecoupler(size, func(id, n int) (int, bool) { drops++; return 7, true })
	length := func(i int) int {
		if big && i%97 == 0 {
			return Pick(e, 255, 256, 257, 4096, 65535, 65536, 65537, 70000)
		}
		return 1 + i%5
	}
	type m struct{ id, n int }
	if nw == 1 && e.Chance(70) { // one task: a FIFO to the letter
		var q []m
		seq := 0
		next := func() bool {
			want := len(q) > 0
			got := false
			ok := d.Next(func(id, n int) {
				got = true
				if !want {
					e.Fail("C05", "delivered-twice", "a message of %d bytes was delivered although all were (after %d messages)", n, seq)
					return
				}
				e.Check(id == q[0].id && n == q[0].n, "C05", "wrong-message", "message %d of %d bytes was delivered in the place of %d of %d bytes (%d messages so far, size %d)", id, n, q[0].id, q[0].n, seq, size)
			}, func(int) { e.Fail("C05", "view-overwritten", "the bytes changed while the view was running") })
			e.Check(ok == got && ok == want, "C06", "false-empty", "Next reported %v and delivered %v with %d messages waiting (%d so far, size %d)", ok, got, len(q), seq, size)
			if want {
				q = q[1:]
			}
			sim.Did()
			return ok
		}
		for seq < total && !sim.Tired() {
			for k := e.Int(burst + 1); k > 0 && !sim.Tired(); k-- {
				seq++
				sim.Did()
				x := m{1 + seq%250, length(seq)}
				was := drops
				k, bad, _ := d.Write(x.id, x.n, 0)
				if len(q) < size {
					e.Check(drops == was && !bad && k == x.n, "C06", "dropped-not-full", "message number %d was not accepted although only %d of %d messages are waiting", seq, len(q), size)
					q = append(q, x)
				} else {
					e.Check(drops == was+1 && bad && k == 7, "C06", "over-capacity", "message number %d was not dropped although %d messages are waiting", seq, len(q))
				}
			}
			for k := e.Int(burst + 1); k > 0 && !sim.Tired(); k-- {
				next()
			}
		}
		for next() {
		}
		e.Check(len(q) == 0, "C06", "lost", "draining ended with %d messages waiting", len(q))
		return
	}
	const cycle = 80 // ids of a writer repeat after so many
	sent := make([][]m, nw)
	seen := make([]int, nw)
	var ws, rd Tasks
	left := nw
	for w := 0; w < nw; w++ {
		ws.Go("writer", func() {
			for i := 0; i < total/nw && !sim.Tired(); i++ {
				sim.Did()
				x := m{1 + w*cycle + i%cycle, length(i)}
				sent[w] = append(sent[w], x)
				k, bad, _ := d.Write(x.id, x.n, 0)
				if bad {
					e.Check(k == 7, "C06", "drop-result", "the drop function returned 7 but Write returned %d", k)
				}
				if bad || k != x.n {
					// it is not delivered: take it out again
					for j := len(sent[w]) - 1; j >= 0; j-- {
						if sent[w][j] == x {
							sent[w] = append(sent[w][:j:j], sent[w][j+1:]...)
							break
						}
					}
				}
			}
			left--
		})
	}
	rd.Go("reader", func() {
		for {
			done := left == 0
			ok := d.Next(func(id, n int) {
				w := (id - 1) / cycle
				if id < 1 || w >= nw {
					e.Fail("C05", "corrupt", "a view was given bytes nobody wrote (%d bytes)", n)
					return
				}
				k := seen[w]
				seen[w]++
				sim.Did()
				if k >= len(sent[w]) {
					e.Fail("C05", "delivered-twice", "more messages of one writer were delivered than it wrote")
					return
				}
				e.Check(sent[w][k] == m{id, n}, "C05", "wrong-message", "message %d of %d bytes was delivered in the place of %d of %d bytes (number %d of its writer, size %d)", id, n, sent[w][k].id, sent[w][k].n, k, size)
			}, func(int) { e.Fail("C05", "view-overwritten", "the bytes changed while the view was running") })
			if !ok && done {
				return
			}
		}
	})
	ws.Join()
	rd.Join()
	for w := range sent {
		e.Check(seen[w] == len(sent[w]), "C05", "lost", "%d messages of a writer were accepted but only %d delivered", len(sent[w]), seen[w])
		e.Check(seen[w] == len(sent[w]), "C06", "lost", "%d messages of a writer were accepted but only %d delivered before Next reported false", len(sent[w]), seen[w])
	}
}

func init() {
	register(&Scenario{Name: "decoupler", Props: []string{"C05", "C06"}, Weight: 1, Run: decouplerScenario,
		Real: "iox/decouplex", Stub: "goroutine scheduler, sync/atomic scheduling points, clock"})
	for _, id := range []string{"C05", "C06"} {
		meta(&Meta{ID: id, Race: true, Rule: "a run is one generated decoupler size, set of writers and reader actions, schedule and fault sequence; non-trivial when at least two messages are written",
			Runs: map[string]int{"quick": 300000, "thorough": 6000000}})
	}
}
