// Package simsignal replaces os/signal.
package simsignal

import (
	"context"
	"os"

	"verif/sim"
	"verif/sim/simcontext"
)

type sigset []string

func (s sigset) has(n string) bool {
	for _, x := range s {
		if x == n {
			return true
		}
	}
	return false
}

func (s *sigset) add(n string) {
	if !s.has(n) {
		*s = append(*s, n)
	}
}

func (s *sigset) del(n string) {
	for i, x := range *s {
		if x == n {
			*s = sim.Remove(*s, i)
			return
		}
	}
}

type reg struct {
	c    chan<- os.Signal
	all  bool
	sigs sigset
}

type state struct {
	regs    []*reg
	ignored sigset
}

func st() *state {
	w := sim.Active()
	if w == nil {
		return &state{}
	}
	s, _ := w.Local.Get("signal").(*state)
	if s == nil {
		s = &state{}
		w.Local.Set("signal", s)
	}
	return s
}

func name(s os.Signal) string { return s.String() }

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	sim.Step(72)
	s := st()
	var r *reg
	for _, x := range s.regs {
		if x.c == c {
			r = x
		}
	}
	if r == nil {
		r = &reg{c: c}
		s.regs = append(s.regs, r)
	}
	if len(sig) == 0 {
		r.all = true
	}
	for _, g := range sig {
		r.sigs.add(name(g))
		s.ignored.del(name(g))
	}
}

func Stop(c chan<- os.Signal) {
	sim.Step(73)
	s := st()
	for i, x := range s.regs {
		if x.c == c {
			s.regs = sim.Remove(s.regs, i)
			return
		}
	}
}

func Ignore(sig ...os.Signal) {
	sim.Step(74)
	s := st()
	for _, g := range sig {
		s.ignored.add(name(g))
		for _, r := range s.regs {
			r.sigs.del(name(g))
		}
	}
}

func Ignored(sig os.Signal) bool { sim.Step(75); return st().ignored.has(name(sig)) }

func Reset(sig ...os.Signal) {
	sim.Step(76)
	s := st()
	if len(sig) == 0 {
		s.regs = nil
		s.ignored = nil
	}
	for _, g := range sig {
		s.ignored.del(name(g))
		for _, r := range s.regs {
			r.sigs.del(name(g))
		}
	}
}

// Outcome of delivering a signal to the simulated process.
const (
	Default   = iota // nobody registered: the default action of the signal applies
	Delivered        // at least one channel took it
	Dropped          // registered, but every channel was full
	Swallowed        // ignored
)

// Deliver sends a signal to the simulated process.
func Deliver(sig os.Signal) int {
	s := st()
	if s.ignored.has(name(sig)) {
		return Swallowed
	}
	out := Default
	for _, r := range s.regs {
		if r.all || r.sigs.has(name(sig)) {
			if sim.SendNow(r.c, sig) {
				out = Delivered
			} else if out == Default {
				out = Dropped
			}
		}
	}
	return out
}

// Wanted reports whether a channel is registered for the signal.
func Wanted(sig os.Signal) bool {
	for _, r := range st().regs {
		if r.all || r.sigs.has(name(sig)) {
			return true
		}
	}
	return false
}

func NotifyContext(parent context.Context, signals ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := simcontext.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, signals...)
	if ctx.Err() == nil {
		sim.Go("signal.NotifyContext", func() {
			if sim.Select(false, sim.RecvCase(ch), sim.RecvCase(ctx.Done())) == 0 {
				cancel()
			}
		})
	}
	return ctx, func() { cancel(); Stop(ch) }
}
