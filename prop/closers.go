package prop

import (
	"fmt"
	"os"
	"runtime"
	"syscall"

	"verif/adapt"
	"verif/sim"
	"verif/sim/simsignal"
)

// --- close manager

type mcloser struct {
	id        int
	kind      int // of its type
	inv, resp int // of its Append
	errk      int // -1 none
	body      int
	d         int64
	panics    int // how many of its first calls panic
	err       error
	calls     int
	nest      bool // a nested manager
}

type mclose struct {
	inv  int
	got  []*mcloser
	pan  bool
	task *sim.Task
}

func managerScenario(e *Env) {
	mode := e.Weighted(6, 1, 1) // own manager, package functions, both
	var m, m2 *adapt.Manager
	switch mode {
	case 0:
		m = adapt.NewManager()
		m2 = m
	case 1:
		m = adapt.DefaultManager(true)
		m2 = m
	default:
		m, m2 = adapt.DefaultManager(true), adapt.DefaultManager(false)
	}
	big := e.Int(2500) == 0
	if big {
		sim.LongRun(30_000)
	}
	seq := e.Chance(15)
	failing := Pick(e, 0, 20, 60, 100)
	var all []*mcloser
	mk := func() *mcloser {
		c := &mcloser{id: len(all), kind: e.Weighted(4, 1, 1, 1, 1), errk: -1, body: e.Weighted(5, 2, 2), d: int64(e.Range(1, 2000)) * 1000}
		if e.Chance(failing) {
			c.errk = e.Int(adapt.ErrKinds)
			c.err = adapt.MkErr(c.errk, c.id)
		}
		if !big && e.Chance(6) {
			c.panics = e.Range(1, 2)
		}
		all = append(all, c)
		return c
	}
	type op struct {
		c *mcloser // nil: Close
		d int64
		o bool
	}
	var plan [][]op
	nt := e.Range(1, 4)
	if seq {
		nt = 1
	}
	closes := 0
	for t := 0; t < nt; t++ {
		var ops []op
		n := e.Range(1, 5+e.Size/12)
		if big && t == 0 {
			n = Pick(e, 66, 130, 260, e.Range(20, 300))
		}
		for x := n; x > 0; x-- {
			o := op{o: e.Chance(50)}
			if closes < 6 && e.Chance(20) {
				closes++
			} else {
				o.c = mk()
			}
			if e.Chance(12) {
				o.d = int64(e.Range(1, 2000)) * 1000
			}
			ops = append(ops, o)
		}
		plan = append(plan, ops)
	}
	// a nested manager with closers of its own
	var inner *adapt.Manager
	var innerErr bool
	innerCalls := 0
	if e.Chance(20) && mode == 0 {
		inner = adapt.NewManager()
		innerErr = e.Chance(50)
	}
	e.Note("mode=%d tasks=%d closers=%d closes=%d failing=%d%% nested=%v", mode, nt, len(all), closes, failing, inner != nil)
	e.Nontrivial = len(all) >= 1

	ev := 0
	tick := func() int { ev++; return ev }
	var running []*mclose
	called := func(c *mcloser) error {
		var cl *mclose
		for _, x := range running {
			if x.task == sim.Cur() {
				cl = x
			}
		}
		if cl == nil {
			e.Fail("C13", "stray-close", "closer %d was closed outside of any Close call", c.id)
			return nil
		}
		for _, x := range cl.got {
			if x == c {
				e.Fail("C13", "closed-twice", "one Close call closed closer %d twice", c.id)
			}
		}
		cl.got = append(cl.got, nil)
		cl.got[len(cl.got)-1] = c
		c.calls++
		n := c.calls
		sim.Log("closer %d closed", c.id)
		switch c.body {
		case 1:
			sim.Step(200)
		case 2:
			sim.Sleep(c.d)
		}
		if n <= c.panics {
			sim.Probe("closer-panics")
			panic("closer")
		}
		return c.err
	}
	app := func(mm *adapt.Manager, c *mcloser) {
		c.inv = tick()
		mm.Append(c.kind, c.id, func(id int) error {
			if id != c.id {
				e.Fail("C13", "corrupt", "closer %d lost its contents", c.id)
			}
			return called(c)
		})
		c.resp = tick()
		sim.Log("append %d", c.id)
	}
	type kept struct {
		err  error
		errs []error
	}
	var keep []kept
	var nestC *mcloser
	check := func(k kept) {
		got, ok := adapt.AsErrs(k.err)
		if !ok {
			e.Fail("C13", "no-list", "AsErrs does not recognize the error of Close")
			return
		}
		e.Check(len(got) == len(k.errs), "C13", "failures", "AsErrs gives %d failures of %d", len(got), len(k.errs))
		for i := range got {
			if i < len(k.errs) && !adapt.SameErr(got[i], k.errs[i]) {
				e.Fail("C13", "failures", "failure number %d reported by AsErrs is not the one that occurred", i)
			}
		}
		for i, x := range k.errs {
			e.Check(adapt.Contains(k.err, x), "C13", "text", "the text of the error does not include that of failure %d", i)
		}
	}
	cls := func(mm *adapt.Manager) {
		cl := &mclose{inv: tick(), task: sim.Cur()}
		running = append(running, nil)
		running[len(running)-1] = cl
		before := innerCalls
		var err error
		p, panicked := Try(func() { err = mm.Close() })
		for i, x := range running {
			if x == cl {
				running = sim.Remove(running, i)
				break
			}
		}
		sim.Log("close -> %v", panicked || err != nil)
		for i, a := range cl.got {
			for _, b := range cl.got[i+1:] {
				if b.resp > 0 && b.resp < a.inv {
					e.Fail("C13", "order", "closer %d was closed before closer %d, which was registered earlier", a.id, b.id)
				}
			}
		}
		if panicked {
			if s, ok := p.(string); !ok || s != "closer" {
				sim.Fail("crash", "Close panicked: %v", p)
			}
			return
		}
		for _, c := range all {
			if c.resp > 0 && c.resp < cl.inv {
				n := 0
				for _, x := range cl.got {
					if x == c {
						n++
					}
				}
				if c.nest {
					n = innerCalls - before
				}
				e.Check(n == 1, "C13", "not-closed", "Close returned without having closed closer %d (%d times), registered before", c.id, n)
			}
		}
		for _, c := range cl.got {
			if c.panics >= c.calls { // its panic was swallowed; nothing is stated about that
				return
			}
		}
		if nestC != nil && innerErr {
			return // its failures are checked below
		}
		k := kept{err: err}
		for _, c := range cl.got {
			if c.err != nil {
				k.errs = append(k.errs, c.err)
			}
		}
		if len(k.errs) == 0 {
			e.Check(err == nil, "C13", "not-nil", "no closer failed but Close did not return nil")
			_, ok := adapt.AsErrs(err)
			e.Check(!ok, "C13", "not-nil", "AsErrs finds failures although none occurred")
			return
		}
		if err == nil {
			e.Fail("C13", "nil", "%d closers failed but Close returned nil", len(k.errs))
			return
		}
		sim.Probe("failures-reported")
		check(k)
		keep = append(keep, k)
	}
	var g Tasks
	for _, ops := range plan {
		ops := ops
		g.Go("user", func() {
			for _, o := range ops {
				if o.d > 0 {
					sim.Sleep(o.d)
				}
				mm := m
				if o.o {
					mm = m2
				}
				if o.c != nil {
					app(mm, o.c)
				} else {
					cls(mm)
				}
			}
		})
	}
	g.Join()
	cls(m)
	left := 0 // closers may still panic; each such call uses up one panic
	for _, c := range all {
		left += c.panics
	}
	for ; left > 0; left-- {
		cls(m)
	}
	cls(m)
	for _, k := range keep { // what was returned stays as it was
		check(k)
	}
	if inner != nil {
		ierr := adapt.MkErr(2, 77)
		inner.Append(0, 500, func(id int) error {
			innerCalls++
			if innerErr {
				return ierr
			}
			return nil
		})
		nestC = &mcloser{id: len(all), nest: true}
		nestC.inv = tick()
		m.AppendManager(inner)
		nestC.resp = tick()
		all = append(all, nestC)
		failed := false
		for _, c := range all {
			failed = failed || c.err != nil
		}
		if !innerErr {
			cls(m) // a nested manager without failures is no failure
		} else {
			before := innerCalls
			var err error
			cl := &mclose{inv: tick(), task: sim.Cur()}
			running = append(running, cl)
			err = m.Close()
			running = running[:0]
			errs, ok := adapt.AsErrs(err)
			e.Check(ok && innerCalls == before+1, "C13", "nested", "closing a manager with a failing nested manager: failures reported %v, nested closer called %d times", ok, innerCalls-before)
			if ok {
				last := errs[len(errs)-1]
				in, ok := adapt.AsErrs(last)
				e.Check(ok && len(in) == 1 && adapt.SameErr(in[0], ierr), "C13", "nested", "the failure of the nested manager is not reported as it was")
				e.Check(adapt.Contains(err, ierr), "C13", "text", "the text of the error does not include that of the nested failure")
			}
		}
		_ = failed
	}
}

// --- scopes

func usingScenario(e *Env) {
	type ucloser struct {
		body int
		d    int64
		err  error
	}
	ns := e.Range(1, 3)
	type scope struct {
		cs    []ucloser
		run   func(func()) []error
		nerr  int
		calls int
	}
	type use struct {
		task  *sim.Task
		s     int
		state int // 0 function running, 1 finished, 2 scope returned
		next  int
		up    *use
	}
	scopes := make([]*scope, ns)
	big := e.Int(1000) == 0
	if big {
		sim.LongRun(30_000)
	}
	var uses []*use
	find := func() *use {
		for i := len(uses) - 1; i >= 0; i-- {
			if uses[i].task == sim.Cur() {
				return uses[i]
			}
		}
		return nil
	}
	for i := range scopes {
		i := i
		s := &scope{}
		failing := Pick(e, 0, 30, 70, 100)
		x := e.Range(0, 5)
		if big && i == 0 {
			x = Pick(e, 66, 130, 260, e.Range(20, 120))
		}
		for ; x > 0; x-- {
			c := ucloser{body: e.Weighted(4, 2, 2), d: int64(e.Range(1, 2000)) * 1000}
			if e.Chance(failing) {
				c.err = adapt.MkErr(e.Int(adapt.ErrKinds), i*10+x)
				s.nerr++
			}
			s.cs = append(s.cs, c)
		}
		kinds := make([]int, len(s.cs))
		for i := range kinds {
			kinds[i] = e.Weighted(4, 1, 1, 1, 1)
		}
		s.run = adapt.Scope(kinds, func(id int) error {
			u := find()
			if u == nil || u.s != i {
				e.Fail("C14", "stray-close", "a closer of scope %d was called outside of its use", i)
				return nil
			}
			if id < 0 {
				e.Fail("C14", "corrupt", "a closer of scope %d lost its contents", i)
				return nil
			}
			e.Check(u.state == 1, "C14", "early", "closer %d was called before the scoped function had finished", id)
			e.Check(id == u.next, "C14", "order", "closer %d was called when it was the turn of %d", id, u.next)
			u.next++
			s.calls++
			switch s.cs[id].body {
			case 1:
				sim.Step(200)
			case 2:
				sim.Sleep(s.cs[id].d)
			}
			return s.cs[id].err
		})
		scopes[i] = s
	}
	type call struct {
		s    int
		how  int // 0 returns, 1 panics, 2 exits, 3 panics inside the runtime
		body int
		d    int64
		pv   int // kind of the panic value
		in   *call
	}
	var gen func(depth int) *call
	gen = func(depth int) *call {
		c := &call{s: e.Int(ns), how: e.Weighted(5, 3, 2, 1), body: e.Int(3), d: int64(e.Range(1, 2000)) * 1000, pv: e.Int(3)}
		if depth < 2 && e.Chance(25) {
			c.in = gen(depth + 1)
		}
		return c
	}
	nt := e.Range(1, 3)
	var plan [][]*call
	n := 0
	for t := 0; t < nt; t++ {
		var cs []*call
		for x := e.Range(1, 4); x > 0; x-- {
			cs = append(cs, gen(0))
			n++
		}
		plan = append(plan, cs)
	}
	e.Note("scopes=%d tasks=%d uses=%d", ns, nt, n)
	e.Nontrivial = true
	type kept struct {
		s    *scope
		errs []error
	}
	var keep []kept
	check := func(k kept) {
		e.Check((k.errs == nil) == (k.s.nerr == 0), "C14", "nil", "%d closers failed but the scope returned nil: %v", k.s.nerr, k.errs == nil)
		e.Check(len(k.errs) == k.s.nerr, "C14", "errors", "%d closers failed but the scope returned %d errors", k.s.nerr, len(k.errs))
		j := 0
		for i := range k.s.cs {
			if k.s.cs[i].err != nil {
				if j < len(k.errs) && !adapt.SameErr(k.errs[j], k.s.cs[i].err) {
					e.Fail("C14", "errors", "error number %d returned by the scope is not the one its closer returned", j)
				}
				j++
			}
		}
	}
	perr := adapt.MkErr(3, 5)
	var do func(c *call) (exited bool)
	do = func(c *call) bool {
		u := &use{task: sim.Cur(), s: c.s}
		uses = append(uses, nil)
		uses[len(uses)-1] = u
		ran := 0
		returned := false
		var errs []error
		normal := false
		var pv any
		drop := func() {
			for i, x := range uses {
				if x == u {
					uses = sim.Remove(uses, i)
					break
				}
			}
		}
		func() {
			defer func() {
				if normal || sim.Killing() {
					return
				}
				// also runs when the goroutine exits
				drop()
				e.Check(u.next == len(scopes[c.s].cs), "C14", "not-closed", "the scoped function did not return and only %d of %d closers were called", u.next, len(scopes[c.s].cs))
				e.Check(u.state == 1, "C14", "not-run", "the scope ended without the function having finished")
				if c.how != 2 {
					pv = recover()
				}
			}()
			errs = scopes[c.s].run(func() {
				ran++
				e.Check(ran == 1, "C14", "run-twice", "the scoped function ran %d times", ran)
				e.Check(u.next == 0, "C14", "early", "closers were called before the scoped function")
				if c.in != nil {
					sim.Probe("nested-scope")
					if c.in.how != 2 {
						do(c.in)
					}
				}
				switch c.body {
				case 1:
					sim.Step(200)
				case 2:
					sim.Sleep(c.d)
				}
				u.state = 1
				switch c.how {
				case 1:
					sim.Probe("function-panics")
					switch c.pv {
					case 0:
						panic(perr)
					case 1:
						panic(4711)
					}
					panic("scoped")
				case 2:
					sim.Probe("function-exits")
					goexit()
				case 3:
					sim.Probe("function-panics")
					var z []int
					_ = z[len(plan)]
				}
				returned = true
			})
			normal = true
		}()
		sim.Log("scope %d used: returned=%v", c.s, returned)
		if normal {
			drop()
			e.Check(ran == 1, "C14", "not-run", "the scope ran its function %d times", ran)
			e.Check(returned, "C14", "swallowed", "the scope returned although its function panicked or exited")
			e.Check(u.next == len(scopes[c.s].cs), "C14", "not-closed", "the scope returned when only %d of %d closers had been called", u.next, len(scopes[c.s].cs))
			k := kept{scopes[c.s], errs}
			check(k)
			keep = append(keep, kept{})
			keep[len(keep)-1] = k
			return false
		}
		// it panicked
		ok := false
		switch {
		case c.how == 3:
			_, ok = pv.(runtime.Error)
		case c.how == 1 && c.pv == 0:
			err, is := pv.(error)
			ok = is && adapt.SameErr(err, perr)
		case c.how == 1 && c.pv == 1:
			ok = pv == any(4711)
		case c.how == 1:
			ok = pv == any("scoped")
		}
		if c.how == 0 {
			sim.Fail("crash", "the scope panicked: %v", pv)
		}
		e.Check(ok, "C14", "panic-value", "the caller got the panic value %v, which is not what the function panicked with", fmt.Sprint(pv))
		return false
	}
	var g Tasks
	for _, cs := range plan {
		var cur []*call
		flush := func() {
			if cs := cur; len(cs) > 0 {
				g.Go("user", func() {
					for _, c := range cs {
						do(c)
					}
				})
			}
			cur = nil
		}
		for _, c := range cs {
			cur = append(cur, c)
			if c.how == 2 {
				flush() // this one ends its goroutine
			}
		}
		flush()
	}
	g.Join()
	for _, k := range keep {
		check(k)
	}
}

// --- termination signals

var termSigs = []os.Signal{syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM}
var otherSigs = []os.Signal{syscall.SIGHUP, syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGWINCH, syscall.SIGALRM, syscall.SIGCHLD, syscall.SIGABRT, syscall.SIGPIPE}

// settle lets everything that is under way finish.
func settle() {
	sim.Calm()
	sim.Sleep(20_000 * ms)
	sim.WaitIdle()
	sim.Uncalm()
}

func signalScenario(e *Env) {
	nh := 1
	if e.Chance(15) {
		nh = 2
	}
	type handle struct {
		c       <-chan struct{}
		seen    func() int
		body    int
		d       int64
		started int
		ended   int
		logs    int
	}
	hs := make([]*handle, nh)
	for i := range hs {
		hs[i] = &handle{body: e.Weighted(3, 3, 3), d: int64(e.Range(1, 5000)) * 1000}
	}
	type sig struct {
		s    os.Signal
		term bool
		d    int64
		n    int
	}
	genSig := func(termPct int) sig {
		g := sig{n: 1}
		if e.Chance(termPct) {
			g.s, g.term = termSigs[e.Int(3)], true
		} else {
			g.s = otherSigs[e.Int(len(otherSigs))]
		}
		if e.Chance(30) {
			g.d = int64(e.Range(1, 8000)) * 1000
		}
		if e.Chance(15) {
			g.n = e.Range(2, 5)
			if e.Int(300) == 0 {
				g.n = Pick(e, 70, 130, 300)
			}
		}
		return g
	}
	var before []sig
	for x := e.Weighted(3, 1, 1, 1); x > 0; x-- {
		before = append(before, genSig(0))
	}
	nt := e.Range(0, 3)
	var senders [][]sig
	for t := 0; t < nt; t++ {
		var ss []sig
		for x := e.Range(1, 5); x > 0; x-- {
			ss = append(ss, genSig(65))
		}
		senders = append(senders, ss)
	}
	waiters := e.Range(0, 3)
	atOnce := e.Chance(35) // signals arrive before anything else has run
	var after []sig
	for x := e.Range(0, 4); x > 0; x-- {
		after = append(after, genSig(80))
	}
	e.Note("handlers=%d senders=%d waiters=%d", nh, nt, waiters)
	e.Nontrivial = nt > 0
	terms := 0 // termination signals sent
	sent := false
	closed := func(h *handle) bool {
		return sim.Select(true, sim.RecvCase(h.c)) == 0
	}
	for i, h := range hs {
		i, h := i, h
		h.c, h.seen = adapt.HandleKillSig(func() {
			h.started++
			sim.Log("handler %d starts", i)
			e.Check(sent, "C15", "handler-unasked", "the handler ran although no termination signal had arrived")
			e.Check(h.started == 1, "C15", "handler-again", "the handler was run %d times", h.started)
			switch h.body {
			case 1:
				for k := int64(0); k < h.d/1000%6; k++ {
					sim.Step(200)
				}
			case 2:
				sim.Sleep(h.d)
			}
			h.ended++
			sim.Log("handler %d ends", i)
		}, func() { h.logs++ })
	}
	deliver := func(g sig) {
		if g.d > 0 {
			sim.Sleep(g.d)
		}
		for k := 0; k < g.n; k++ {
			sim.Step(200)
			if g.term {
				terms++
				sent = true
			}
			out := simsignal.Deliver(g.s)
			sim.Fault("signal")
			sim.Log("signal %s -> %d", g.s.String(), out)
			if g.term {
				e.Check(out != simsignal.Default, "C15", "process-killed", "%s terminates the process: nobody handles it any more", g.s.String())
				e.Check(out != simsignal.Swallowed || hs[0].started > 0, "C15", "ignored", "%s is ignored", g.s.String())
				if out == simsignal.Dropped {
					sim.Probe("signal-dropped")
				}
			}
		}
	}
	if !atOnce {
		for _, g := range before {
			deliver(g)
		}
		settle()
		for _, h := range hs {
			e.Check(h.started == 0, "C15", "handler-unasked", "the handler ran without a termination signal")
			e.Check(!closed(h), "C15", "closed-unasked", "C is closed without a termination signal")
		}
	} else if nt > 0 {
		sim.Probe("signals-at-once")
	}
	var ws, g Tasks
	got := 0
	for k := 0; k < waiters; k++ {
		h := hs[k%nh]
		ws.Go("waiter", func() {
			sim.Recv2(h.c)
			e.Check(h.ended == 1, "C15", "early-close", "C is closed although the handler has not returned (started %d, ended %d)", h.started, h.ended)
			e.Check(h.seen() == 1, "C15", "early-close", "a waiter released by C does not see what the handler wrote")
			got++
		})
	}
	for _, ss := range senders {
		ss := ss
		g.Go("sender", func() {
			for _, s := range ss {
				deliver(s)
			}
		})
	}
	g.Join()
	settle()
	check := func() {
		for _, h := range hs {
			if terms > 0 {
				e.Check(h.ended == 1, "C15", "handler-not-run", "%d termination signals arrived but the handler ran %d times", terms, h.ended)
				e.Check(closed(h), "C15", "not-closed", "the handler has returned but C is not closed")
			} else {
				e.Check(h.started == 0, "C15", "handler-unasked", "the handler ran without a termination signal")
				e.Check(!closed(h), "C15", "closed-unasked", "C is closed without a termination signal")
			}
		}
	}
	check()
	for _, s := range after {
		deliver(s)
	}
	if terms == 0 {
		deliver(sig{s: termSigs[0], term: true, n: 1})
	}
	ws.Join()
	settle()
	check()
	e.Check(got == waiters, "C15", "not-released", "%d of %d waiters were released", got, waiters)
}

func init() {
	register(&Scenario{Name: "close-manager", Props: []string{"C13"}, Weight: 1, Run: managerScenario,
		Real: "iox/managerx/closex", Stub: "goroutine scheduler, sync.Mutex; the closers fail, stall and panic as drawn"})
	meta(&Meta{ID: "C13", Race: true, Rule: "a run is one generated set of closers with their failures, concurrent Append and Close calls, schedule and fault sequence; non-trivial when at least one closer is registered",
		Runs: map[string]int{"quick": 300000, "thorough": 6000000}})
	register(&Scenario{Name: "using", Props: []string{"C14"}, Weight: 1, Run: usingScenario,
		Real: "iox/usingx", Stub: "goroutine scheduler; the closers fail and stall and the scoped functions panic and exit as drawn"})
	meta(&Meta{ID: "C14", Race: true, Rule: "a run is one generated set of scopes with failing closers and concurrent, possibly nested uses that return, panic or exit, schedule and fault sequence; always non-trivial",
		Runs: map[string]int{"quick": 300000, "thorough": 6000000}})
	register(&Scenario{Name: "signals", Props: []string{"C15"}, Weight: 1, Run: signalScenario,
		Real: "osx/closex", Stub: "goroutine scheduler, os/signal delivery, channels"})
	meta(&Meta{ID: "C15", Race: true, Rule: "a run is one generated handler behaviour, set of waiters and sequence of signals with their arrival times, schedule and fault sequence; non-trivial when signals arrive concurrently",
		Runs: map[string]int{"quick": 300000, "thorough": 6000000}})
}
