package prop

import (
	"sort"

	"verif/adapt"
	"verif/sim"
	"verif/sim/simrand"
)

// The reference: closed intervals, by definition rather than by scanning.
func intersectModel(rs []adapt.Reading) (lo, hi int64, outvoted int, ok bool) {
	m := len(rs)
	for f := 0; f == 0 && m == 1 || f < m/2; f++ {
		need := m - f
		found := false
		for _, r := range rs {
			for _, x := range [2]int64{r.Offset - r.Band, r.Offset + r.Band} {
				n := 0
				for _, q := range rs {
					if q.Offset-q.Band <= x && x <= q.Offset+q.Band {
						n++
					}
				}
				if n < need {
					continue
				}
				if !found || x < lo {
					lo = x
				}
				if !found || x > hi {
					hi = x
				}
				found = true
			}
		}
		if !found {
			continue
		}
		out := 0
		for _, r := range rs {
			if r.Offset < lo || r.Offset > hi {
				out++
			}
		}
		if out <= f {
			return lo, hi, f, true
		}
	}
	return 0, 0, 0, false
}

// clockScenario: a client asks several time servers at once; answers come in any
// order, get lost or arrive twice, and some servers have wrong clocks.
func clockScenario(e *Env) {
	m := Pick(e, 3, 4, 5, 1, 2, e.Range(0, 8), e.Range(9, 40))
	if e.Int(6000) == 0 {
		m = Pick(e, 257, e.Range(100, 300))
	}
	scale := Pick[int64](e, 1, 1000, 1_000_000_000)
	span := Pick(e, 6, 20, 1000)
	truth := int64(e.Range(-span, span)) * scale
	type server struct {
		r     adapt.Reading
		delay int64
		lost  bool
		twice bool
		wrong bool
	}
	var sv []server
	wrong := 0
	badPct := Pick(e, 0, 10, 30, 60)
	for i := 0; i < m; i++ {
		var s server
		s.r.Band = int64(e.Range(0, span)) * scale
		if e.Chance(15) {
			s.r.Band = 0
		}
		// a right clock is off by no more than it admits
		if s.r.Band > 0 {
			s.r.Offset = truth + int64(e.Range(-int(s.r.Band/scale), int(s.r.Band/scale)))*scale
		} else {
			s.r.Offset = truth
		}
		if e.Chance(badPct) {
			s.wrong = true
			wrong++
			s.r.Offset = int64(e.Range(-3*span, 3*span)) * scale
			sim.Fault("false-clock")
		}
		s.delay = int64(e.Range(1, 50)) * ms / 10
		s.lost = e.Chance(badPct / 4)
		s.twice = e.Chance(badPct / 4)
		sv = append(sv, s)
	}
	perm := e.Int(1 << 16)
	e.Note("servers=%d wrong=%d unit=%d truth=%d", m, wrong, scale, truth)
	var rs []adapt.Reading
	var g Tasks
	for i := range sv {
		s := sv[i]
		g.Go("server", func() {
			sim.Sleep(s.delay)
			if s.lost {
				sim.Fault("message-lost")
				return
			}
			rs = append(rs, s.r)
			sim.Log("answer %d +- %d", s.r.Offset, s.r.Band)
			if s.twice {
				sim.Sleep(s.delay)
				sim.Fault("message-duplicated")
				rs = append(rs, s.r)
			}
		})
	}
	g.Join()
	e.Nontrivial = len(rs) >= 2
	lo, hi, ok := adapt.Intersect(rs)
	sim.Log("intersection %d %d %v", lo, hi, ok)
	wl, wh, f, wok := intersectModel(rs)
	e.Check(ok == wok, "C30", "found", "Intersection of %v reports %v, by definition it is %v [%d,%d]", rs, ok, wok, wl, wh)
	if ok {
		sim.Probe("intersection-found")
		if f > 0 {
			sim.Probe("clocks-outvoted")
		}
		e.Check(lo == wl && hi == wh, "C30", "span", "Intersection of %v is [%d,%d], by definition [%d,%d]", rs, lo, hi, wl, wh)
		if wrong == 0 {
			e.Check(lo <= truth && truth <= hi, "C30", "truth-missed", "all clocks are right, but the true time %d is not in [%d,%d]", truth, lo, hi)
		}
	}
	// the order of arrival does not matter
	qs := append([]adapt.Reading(nil), rs...)
	r := sim.NewRNG(uint64(perm))
	for i := len(qs) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		qs[i], qs[j] = qs[j], qs[i]
	}
	lo2, hi2, ok2 := adapt.Intersect(qs)
	e.Check(ok2 == ok && (!ok || lo2 == lo && hi2 == hi), "C30", "order", "the same readings in another order give [%d,%d] %v instead of [%d,%d] %v", lo2, hi2, ok2, lo, hi, ok)
}

func shuffleScenario(e *Env) {
	kind := e.Int(adapt.ShuffleKinds - 1)
	coarse := Pick(e, 0, 0, 30, 160)
	if e.Chance(2) {
		// in longer slices every element is as likely to end up in one place as in another
		n := Pick(e, 5, 8, e.Range(5, 40), e.Range(41, 300))
		bins := n
		for bins > 20 {
			bins = (bins + 1) / 2
		}
		vals := make([]int, n)
		for i := range vals {
			vals[i] = i
		}
		in := make([]int, bins) // how many positions fall into a bin
		for i := range vals {
			in[i*bins/n]++
		}
		rounds := 500 * bins
		if rounds*n > 600_000 {
			rounds = 600_000 / n
		}
		counts := make([]int, bins*bins)
		sim.LongRun(rounds * n)
		e.Note("places in %d shuffles of %d elements", rounds, n)
		e.Nontrivial = true
		for k := 0; k < rounds; k++ {
			out, _ := adapt.Shuffle(kind, vals)
			for i, v := range out {
				if v < 0 || v >= n {
					e.Fail("C29", "elements", "shuffling 0..%d gave %d", n-1, v)
					return
				}
				counts[v*bins/n*bins+i*bins/n]++
			}
			sim.Step(9)
		}
		for a := range in {
			for b := range in {
				want := rounds * in[a] * in[b] / n
				c := counts[a*bins+b]
				e.Check(c > want*6/10 && c < want*14/10, "C29", "favoured-place", "elements of part %d ended up in part %d (of %d) %d times in %d shuffles of %d elements, %d would be fair", a, b, bins, c, rounds, n, want)
			}
		}
		return
	}
	if e.Chance(2) {
		// a fair source favours no order
		n := e.Range(2, 4)
		vals := make([]int, n)
		orders := 1
		for i := range vals {
			vals[i] = i
			orders *= i + 1
		}
		rounds := 600 * orders
		counts := make([]int, 256)
		e.Note("distribution of %d shuffles of %d elements", rounds, n)
		e.Nontrivial = true
		for k := 0; k < rounds; k++ {
			out, _ := adapt.Shuffle(kind, vals)
			code := 0
			for _, v := range out {
				code = code<<2 | v&3
			}
			counts[code]++
			if k&63 == 0 {
				sim.Step(9)
			}
		}
		seen := 0
		for code, c := range counts {
			if c == 0 {
				continue
			}
			seen++
			e.Check(c > 360 && c < 840, "C29", "favoured-order", "order %d came up %d times in %d shuffles, 600 would be fair", code, c, rounds)
		}
		e.Check(seen == orders, "C29", "unreachable-order", "only %d of %d orders came up in %d fair shuffles", seen, orders, rounds)
		return
	}
	if coarse > 0 {
		simrand.SetCoarse(coarse)
		sim.Fault("coarse-random-source")
	}
	rounds := e.Range(1, 6)
	e.Note("rounds=%d kind=%d coarse=%d", rounds, kind, coarse)
	for k := 0; k < rounds; k++ {
		n := Pick(e, e.Range(0, 6), e.Range(0, 6), e.Range(7, 70))
		if e.Int(2000) == 0 {
			n = Pick(e, 257, 1000, 5000, 70_000)
			sim.LongRun(n * 4)
		}
		vals := make([]int, n)
		for i := range vals {
			vals[i] = i
			if e.Chance(20) {
				vals[i] = e.Int(i + 1)
			}
		}
		if n >= 2 {
			e.Nontrivial = true
		}
		kind := kind
		if e.Chance(4) {
			kind = adapt.ShuffleKinds - 1 // nothing to tell the elements apart
			vals = make([]int, n)
		}
		out, same := adapt.Shuffle(kind, vals)
		sim.Log("shuffled %d", n)
		e.Check(same, "C29", "other-slice", "Shuffle did not return the slice it was called on")
		e.Check(len(out) == n, "C29", "length", "%d elements are %d after shuffling", n, len(out))
		a, b := append([]int(nil), vals...), append([]int(nil), out...)
		sort.Ints(a)
		sort.Ints(b)
		for i := range a {
			e.Check(a[i] == b[i], "C29", "elements", "after shuffling %d elements, element %d in order is %d instead of %d", n, i, b[i], a[i])
		}
	}
}

func init() {
	register(&Scenario{Name: "clocks", Props: []string{"C30"}, Weight: 1, Run: clockScenario,
		Real: "timex/intersectionx", Stub: "time servers, network and clocks"})
	meta(&Meta{ID: "C30", Rule: "a run is one set of time servers with generated clocks, delays and losses; non-trivial with at least two answers",
		Runs: map[string]int{"quick": 600000, "thorough": 12000000}})
	register(&Scenario{Name: "shuffle", Props: []string{"C29"}, Weight: 1, Run: shuffleScenario,
		Real: "dsx/slicex Shuffle", Stub: "random source"})
	meta(&Meta{ID: "C29", Rule: "a run is one generated set of slices and one state of the random source; non-trivial with at least two elements",
		Runs: map[string]int{"quick": 200000, "thorough": 4000000}})
}
