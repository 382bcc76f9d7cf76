package prop

import "verif/sim"

// lop is one completed operation of a history: it took effect at some instant
// between inv and resp, changing the state and giving its result.
type lop[S comparable] struct {
	inv, resp int
	apply     func(s S) (S, bool)
	text      func() string
}

type lkey[S comparable] struct {
	mask uint64
	s    S
}

// linearizable searches for a sequential order of the operations that respects
// real time and explains every result (Wing and Gong, with memoization). States
// may branch when apply returns several; it does not here.
func linearizable[S comparable](init S, ops []lop[S]) bool {
	if len(ops) > 64 {
		panic("history too long")
	}
	seen := map[lkey[S]]struct{}{}
	full := uint64(1)<<uint(len(ops)) - 1
	if len(ops) == 64 {
		full = ^uint64(0)
	}
	var rec func(mask uint64, s S) bool
	rec = func(mask uint64, s S) bool {
		if mask == full {
			return true
		}
		k := lkey[S]{mask, s}
		if _, ok := seen[k]; ok {
			return false
		}
		seen[k] = struct{}{}
		first := 1 << 60 // earliest response among those not placed yet
		for i := range ops {
			if mask>>uint(i)&1 == 0 && ops[i].resp < first {
				first = ops[i].resp
			}
		}
		for i := range ops {
			if mask>>uint(i)&1 == 0 && ops[i].inv < first {
				if t, ok := ops[i].apply(s); ok && rec(mask|1<<uint(i), t) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, init)
}

// history renders the operations for a report.
func history[S comparable](ops []lop[S]) string {
	out := ""
	for _, o := range ops {
		out = sim.Sprintf("%s [%d-%d %s]", out, o.inv, o.resp, o.text())
	}
	return out
}
