package main

import (
	"sync"
	"time"
)

// minimizer shrinks the three choice sequences of a failing case. Every candidate
// runs in a fresh process; eight candidates are tried at a time.
type minimizer struct {
	class    string
	deadline time.Time
	c        Case
	best     execResult
}

func (m *minimizer) over() bool { return time.Now().After(m.deadline) }

func nonzero(v []uint32) int {
	n := 0
	for _, x := range v {
		if x != 0 {
			n++
		}
	}
	return n
}

func cost(c *Case) int {
	sum := 0
	for _, x := range c.Workload {
		if x > 1000 {
			x = 1000
		}
		sum += int(x)
	}
	return nonzero(c.Schedule)*50 + nonzero(c.Faults)*40 + len(c.Workload)*20 + sum + len(c.Schedule) + len(c.Faults)
}

// try runs the candidates concurrently and adopts the best that still fails alike.
func (m *minimizer) try(cands []Case) bool {
	if len(cands) == 0 {
		return false
	}
	res := make([]execResult, len(cands))
	var wg sync.WaitGroup
	for i := range cands {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i] = execChild(&cands[i], false)
		}()
	}
	wg.Wait()
	base := cost(&m.c)
	pick := -1
	for i, r := range res {
		if r.died || r.Outcome == nil || r.Outcome.Verdict == nil || r.Outcome.Verdict.Class != m.class {
			continue
		}
		c := cands[i]
		c.Workload, c.Schedule, c.Faults = trim(r.W), trim(r.S), trim(r.F)
		if k := cost(&c); k < base {
			base, pick = k, i
			cands[i] = c
		}
	}
	if pick < 0 {
		return false
	}
	m.c, m.best = cands[pick], res[pick]
	return true
}

func trim(v []uint32) []uint32 {
	n := len(v)
	for n > 0 && v[n-1] == 0 {
		n--
	}
	return append([]uint32(nil), v[:n]...)
}

func (m *minimizer) batch(gen func(yield func(Case) bool)) bool {
	improved := false
	var cur []Case
	gen(func(c Case) bool {
		if m.over() {
			return false
		}
		cur = append(cur, c)
		if len(cur) == 8 {
			ok := m.try(cur)
			cur = nil
			if ok {
				improved = true
				return false
			}
		}
		return true
	})
	if !improved && len(cur) > 0 && !m.over() {
		improved = m.try(cur)
	}
	return improved
}

func with(c Case, which int, v []uint32) Case {
	switch which {
	case 0:
		c.Workload = v
	case 1:
		c.Schedule = v
	default:
		c.Faults = v
	}
	return c
}

func (m *minimizer) get(which int) []uint32 {
	switch which {
	case 0:
		return m.c.Workload
	case 1:
		return m.c.Schedule
	}
	return m.c.Faults
}

func (m *minimizer) run() {
	m.c.Workload, m.c.Schedule, m.c.Faults = trim(m.c.Workload), trim(m.c.Schedule), trim(m.c.Faults)
	for round := 0; round < 6 && !m.over(); round++ {
		before := cost(&m.c)
		// drop faults and schedule choices wholesale, then in halves, then singly
		for _, which := range []int{2, 1} {
			m.zeroChunks(which)
		}
		m.deleteChunks(0)
		m.lower(0)
		if round > 0 {
			m.deleteChunks(1)
			m.deleteChunks(2)
			m.lower(1)
			m.lower(2)
		}
		if cost(&m.c) >= before {
			break
		}
	}
}

func (m *minimizer) zeroChunks(which int) {
	for size := len(m.get(which)); size >= 1 && !m.over(); {
		ok := m.batch(func(yield func(Case) bool) {
			v := m.get(which)
			for i := 0; i < len(v); i += size {
				j := i + size
				if j > len(v) {
					j = len(v)
				}
				if nonzero(v[i:j]) == 0 {
					continue
				}
				x := append([]uint32(nil), v...)
				for k := i; k < j; k++ {
					x[k] = 0
				}
				if !yield(with(m.c, which, x)) {
					return
				}
			}
		})
		if !ok {
			size /= 2
		} else if size > len(m.get(which)) {
			size = len(m.get(which))
		}
	}
}

func (m *minimizer) deleteChunks(which int) {
	for size := len(m.get(which)) / 2; size >= 1 && !m.over(); {
		ok := m.batch(func(yield func(Case) bool) {
			v := m.get(which)
			for i := 0; i < len(v); i += size {
				j := i + size
				if j > len(v) {
					j = len(v)
				}
				x := append(append([]uint32(nil), v[:i]...), v[j:]...)
				if !yield(with(m.c, which, x)) {
					return
				}
			}
		})
		if !ok {
			size /= 2
		} else if size > len(m.get(which)) {
			size = len(m.get(which))
		}
	}
}

func (m *minimizer) lower(which int) {
	m.batchAll(which, func(x uint32) []uint32 {
		if x == 0 {
			return nil
		}
		out := []uint32{0}
		if x > 1 {
			out = append(out, x/2, x-1)
		}
		return out
	})
}

func (m *minimizer) batchAll(which int, alts func(uint32) []uint32) {
	for pos := 0; pos < len(m.get(which)) && !m.over(); {
		v := m.get(which)
		var cands []Case
		next := pos
		for next < len(v) && len(cands) < 8 {
			for _, a := range alts(v[next]) {
				x := append([]uint32(nil), v...)
				x[next] = a
				cands = append(cands, with(m.c, which, x))
			}
			next++
		}
		if !m.try(cands) {
			pos = next
		}
	}
}
