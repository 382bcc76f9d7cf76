package sim

import (
	"runtime"
	"unsafe"
)

// Channels stay real Go channels: buffered elements live in them and len, cap,
// close and comparison are native. Blocking is simulated: waiting senders and
// receivers queue here in FIFO order, and hand-over follows the Go runtime's rules.

type selector struct {
	task *Task
	done bool
	idx  int
}

type waiter struct {
	sel    *selector
	idx    int
	ch     uintptr
	val    any
	ok     bool
	closed bool
	tokA   byte // released when parking
	tokB   byte // released by the partner
}

type chanState struct {
	keep   any // keeps the channel alive so that its address is not reused
	recvq  []*waiter
	sendq  []*waiter
	token  *byte
	closed bool
}

type chanOps interface {
	key() uintptr
	keep() any
	capacity() int
	length() int
	trySend(v any) bool
	tryRecv() (v any, ok, ready bool)
	doClose()
}

type rops[T any] struct{ ch <-chan T }
type sops[T any] struct{ ch chan<- T }

func (o rops[T]) key() uintptr  { return *(*uintptr)(unsafe.Pointer(&o.ch)) }
func (o rops[T]) keep() any     { return o.ch }
func (o rops[T]) capacity() int { return cap(o.ch) }
func (o rops[T]) trySend(v any) bool {
	c := *(*chan T)(unsafe.Pointer(&o.ch))
	return sops[T]{c}.trySend(v)
}
func (o rops[T]) tryRecv() (any, bool, bool) {
	select {
	case v, ok := <-o.ch:
		return v, ok, true
	default:
		return nil, false, false
	}
}
func (o rops[T]) doClose()      {}
func (o sops[T]) key() uintptr  { return *(*uintptr)(unsafe.Pointer(&o.ch)) }
func (o sops[T]) keep() any     { return o.ch }
func (o sops[T]) length() int   { return len(o.ch) }
func (o rops[T]) length() int   { return len(o.ch) }
func (o sops[T]) capacity() int { return cap(o.ch) }
func (o sops[T]) trySend(v any) bool {
	var x T
	if v != nil {
		x = v.(T)
	}
	select {
	case o.ch <- x:
		return true
	default:
		return false
	}
}
func (o sops[T]) tryRecv() (any, bool, bool) { return nil, false, false }
func (o sops[T]) doClose()                   { close(o.ch) }

func (w *World) state(o chanOps) *chanState {
	k := o.key()
	st := w.chans.get(k)
	if st == nil {
		st = &chanState{keep: o.keep()}
		w.chans.set(k, st)
	}
	return st
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.sel.done {
			continue
		}
		return x
	}
	return nil
}

func hasWaiter(q *[]*waiter) bool {
	for len(*q) > 0 {
		if !(*q)[0].sel.done {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

func (x *waiter) complete() {
	x.sel.done = true
	x.sel.idx = x.idx
	RaceRelease(unsafe.Pointer(&x.tokB))
	if x.sel.task != nil {
		Ready(x.sel.task)
	}
}

// sendNow attempts to send without blocking.
func (w *World) sendNow(o chanOps, v any) bool {
	st := w.state(o)
	if r := popWaiter(&st.recvq); r != nil {
		if o.capacity() == 0 {
			RaceAcquire(unsafe.Pointer(&r.tokA))
		}
		r.val, r.ok = v, true
		r.complete()
		return true
	}
	return o.trySend(v) // panics on a closed channel, as it must
}

// recvNow attempts to receive without blocking.
func (w *World) recvNow(o chanOps) (v any, ok, ready bool) {
	st := w.state(o)
	v, ok, ready = o.tryRecv()
	if ready {
		if st.token != nil {
			RaceAcquire(unsafe.Pointer(st.token))
		}
		if ok {
			if s := popWaiter(&st.sendq); s != nil {
				RaceAcquire(unsafe.Pointer(&s.tokA))
				o.trySend(s.val)
				s.complete()
			}
		}
		return v, ok, true
	}
	if s := popWaiter(&st.sendq); s != nil {
		RaceAcquire(unsafe.Pointer(&s.tokA))
		v = s.val
		s.complete()
		return v, true, true
	}
	return nil, false, false
}

func (w *World) enqueue(o chanOps, send bool, sel *selector, idx int, v any) *waiter {
	st := w.state(o)
	x := &waiter{sel: sel, idx: idx, ch: o.key(), val: v}
	RaceRelease(unsafe.Pointer(&x.tokA))
	if send {
		st.sendq = append(st.sendq, x)
	} else {
		x.val = nil
		st.recvq = append(st.recvq, x)
	}
	return x
}

func blockForever(why string) {
	for {
		Park(why)
	}
}

func sendCore(o chanOps, v any) {
	w := active
	if w == nil {
		if o.key() != 0 && o.trySend(v) {
			return
		}
		panic("sim: blocking channel send outside a simulation run")
	}
	Step(10)
	if o.key() == 0 {
		blockForever("send on nil channel")
	}
	if w.killing {
		runtime.Goexit()
	}
	if w.sendNow(o, v) {
		return
	}
	x := w.enqueue(o, true, &selector{task: w.cur}, 0, v)
	Park("chan send")
	RaceAcquire(unsafe.Pointer(&x.tokB))
	if x.closed {
		panic(closedErr{})
	}
}

type closedErr struct{}

func (closedErr) Error() string { return "send on closed channel" }
func (closedErr) RuntimeError() {}

func recvCore(o chanOps) (any, bool) {
	w := active
	if w == nil {
		if o.key() != 0 {
			if v, ok, ready := o.tryRecv(); ready {
				return v, ok
			}
		}
		panic("sim: blocking channel receive outside a simulation run")
	}
	Step(11)
	if o.key() == 0 {
		blockForever("receive from nil channel")
	}
	v, ok, ready := w.recvNow(o)
	if ready {
		return v, ok
	}
	if w.killing {
		runtime.Goexit()
	}
	x := w.enqueue(o, false, &selector{task: w.cur}, 0, nil)
	Park("chan receive")
	return finishRecv(o, x)
}

func finishRecv(o chanOps, x *waiter) (any, bool) {
	RaceAcquire(unsafe.Pointer(&x.tokB))
	if st := active.chans.get(x.ch); st != nil && st.token != nil {
		RaceAcquire(unsafe.Pointer(st.token))
	}
	if x.closed {
		v, _, _ := o.tryRecv() // native receive from the closed channel: happens after close
		return v, false
	}
	return x.val, x.ok
}

func closeCore(o chanOps) {
	w := active
	Step(12)
	o.doClose() // panics natively on nil or closed channels
	if w == nil {
		return
	}
	st := w.state(o)
	st.closed = true
	for r := popWaiter(&st.recvq); r != nil; r = popWaiter(&st.recvq) {
		r.closed = true
		r.complete()
	}
	for s := popWaiter(&st.sendq); s != nil; s = popWaiter(&st.sendq) {
		s.closed = true
		s.complete()
	}
}

// SendTo returns the send operation on ch. (Curried so that the element type is
// inferred from the channel alone.)
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { sendCore(sops[T]{ch}, v) }
}

// Recv receives one value.
func Recv[T any](ch <-chan T) T {
	v, _ := recvCore(rops[T]{ch})
	var x T
	if v != nil {
		x = v.(T)
	}
	return x
}

// Recv2 receives one value and reports whether the channel was open.
func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok := recvCore(rops[T]{ch})
	var x T
	if v != nil {
		x = v.(T)
	}
	return x, ok
}

// Close closes ch.
func Close[T any](ch chan<- T) { closeCore(sops[T]{ch}) }

// SendNow sends without blocking or yielding (for timers and signal delivery).
func SendNow[T any](ch chan<- T, v T) bool {
	raceDisable()
	defer raceEnable()
	return active.sendNow(sops[T]{ch}, v)
}

// TimerToken makes receivers from ch synchronize with the creator of its timer.
func TimerToken[T any](ch <-chan T) {
	if active == nil {
		return
	}
	st := active.state(rops[T]{ch})
	if st.token == nil {
		st.token = new(byte)
	}
	RaceReleaseMerge(unsafe.Pointer(st.token))
}

// Select support.

type selCase interface {
	ops() chanOps
	isSend() bool
	sendVal() any
	deliver(v any, ok bool)
}

type RecvOp[T any] struct {
	ch <-chan T
	v  T
	ok bool
}

func RecvCase[T any](ch <-chan T) *RecvOp[T] { return &RecvOp[T]{ch: ch} }

func (r *RecvOp[T]) ops() chanOps { return rops[T]{r.ch} }
func (r *RecvOp[T]) isSend() bool { return false }
func (r *RecvOp[T]) sendVal() any { return nil }
func (r *RecvOp[T]) deliver(v any, ok bool) {
	if v != nil {
		r.v = v.(T)
	}
	r.ok = ok
}
func (r *RecvOp[T]) Val() T          { return r.v }
func (r *RecvOp[T]) Val2() (T, bool) { return r.v, r.ok }

type SendOp[T any] struct {
	ch chan<- T
	v  T
}

func SendCase[T any](ch chan<- T) func(T) *SendOp[T] {
	return func(v T) *SendOp[T] { return &SendOp[T]{ch, v} }
}

func (s *SendOp[T]) ops() chanOps           { return sops[T]{s.ch} }
func (s *SendOp[T]) isSend() bool           { return true }
func (s *SendOp[T]) sendVal() any           { return s.v }
func (s *SendOp[T]) deliver(v any, ok bool) {}

// Select runs a select statement; it returns the index of the chosen case, or
// len(cases) for the default case.
func Select(hasDefault bool, cases ...selCase) int {
	w := active
	if w == nil {
		for i, c := range cases {
			o := c.ops()
			if o.key() == 0 {
				continue
			}
			if c.isSend() {
				if o.trySend(c.sendVal()) {
					return i
				}
			} else if v, ok, ready := o.tryRecv(); ready {
				c.deliver(v, ok)
				return i
			}
		}
		if hasDefault {
			return len(cases)
		}
		panic("sim: blocking select outside a simulation run")
	}
	Step(13)
	// Which cases are ready?
	var ready []int
	for i, c := range cases {
		o := c.ops()
		if o.key() == 0 {
			continue
		}
		if w.caseReady(c, o) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			if w.fair {
				k = w.steps % len(ready)
			} else {
				k = w.S.Int(len(ready))
			}
		}
		i := ready[k]
		c := cases[i]
		if c.isSend() {
			w.sendNow(c.ops(), c.sendVal()) // may panic on closed channel, as it must
		} else {
			v, ok, _ := w.recvNow(c.ops())
			c.deliver(v, ok)
		}
		return i
	}
	if hasDefault {
		return len(cases)
	}
	if w.killing {
		runtime.Goexit()
	}
	sel := &selector{task: w.cur}
	ws := make([]*waiter, len(cases))
	any := false
	for i, c := range cases {
		o := c.ops()
		if o.key() == 0 {
			continue
		}
		any = true
		ws[i] = w.enqueue(o, c.isSend(), sel, i, c.sendVal())
	}
	if !any {
		blockForever("select with no channels")
	}
	Park("select")
	i := sel.idx
	x := ws[i]
	for j, y := range ws {
		if y != nil && j != i {
			w.dequeue(y)
		}
	}
	if cases[i].isSend() {
		RaceAcquire(unsafe.Pointer(&x.tokB))
		if x.closed {
			panic(closedErr{})
		}
		return i
	}
	v, ok := finishRecv(cases[i].ops(), x)
	cases[i].deliver(v, ok)
	return i
}

func (w *World) dequeue(x *waiter) {
	st := w.chans.get(x.ch)
	if st == nil {
		return
	}
	rm := func(q []*waiter) []*waiter {
		for i, y := range q {
			if y == x {
				return Remove(q, i)
			}
		}
		return q
	}
	st.recvq = rm(st.recvq)
	st.sendq = rm(st.sendq)
}

func (w *World) caseReady(c selCase, o chanOps) bool {
	st := w.state(o)
	if c.isSend() {
		return st.closed || hasWaiter(&st.recvq) || o.length() < o.capacity()
	}
	if hasWaiter(&st.sendq) || o.length() > 0 {
		return true
	}
	// empty: a native receive can only succeed because the channel is closed
	raceDisable()
	_, _, ready := o.tryRecv()
	raceEnable()
	return ready
}

// Forever blocks the task for good.
func Forever() { blockForever("select with no cases") }

// ChanZero helps to rewrite range loops over channels.
func ChanZero[T any](ch <-chan T) (<-chan T, T) {
	var z T
	return ch, z
}
