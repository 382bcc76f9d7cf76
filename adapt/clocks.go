package adapt

import (
	"github.com/unsafe-risk/utilx/dsx/slicex"
	"github.com/unsafe-risk/utilx/timex/intersectionx"
)

type Reading struct{ Offset, Band int64 }

// Intersect returns lower, upper, ok.
func Intersect(rs []Reading) (int64, int64, bool) {
	in := make([]intersectionx.Interval, 0, len(rs))
	for _, r := range rs {
		in = append(in, intersectionx.Interval{Offset: r.Offset, ConfidenceBand: r.Band})
	}
	return intersectionx.Intersection(in...)
}

type card struct {
	id   int
	text string
}

const ShuffleKinds = 8

// Shuffle puts vals into a slice of the given kind, shuffles it and returns what it
// holds then; same tells whether the call returned the slice itself.
func Shuffle(kind int, vals []int) (out []int, same bool) {
	switch kind {
	case 1:
		return shuffled(vals, mkStr, unStr)
	case 2:
		return shuffled(vals, func(v int) card { return card{v, "x"} }, func(c card) int {
			if c.text != "x" {
				return -9
			}
			return c.id
		})
	case 3:
		return shuffled(vals, mkItem, rdItem)
	case 4:
		return shuffled(vals, anyOf, rdAny)
	case 5:
		return shuffled(vals, mkFn, unFn)
	case 6:
		return shuffled(vals, func(v int) [3]byte { return [3]byte{byte(v >> 16), byte(v >> 8), byte(v)} }, func(b [3]byte) int { return int(b[0])<<16 | int(b[1])<<8 | int(b[2]) })
	case 7: // elements without a size
		s := slicex.Slice[struct{}](make([]struct{}, len(vals)))
		t := s.Shuffle()
		return make([]int, len(s)), t == &s
	}
	s := slicex.New(append([]int(nil), vals...)...)
	t := s.Shuffle()
	return t.Finalize(), t == s
}

func shuffled[T any](vals []int, mk func(int) T, un func(T) int) (out []int, same bool) {
	s := make(slicex.Slice[T], 0, len(vals))
	for _, v := range vals {
		s = append(s, mk(v))
	}
	t := s.Shuffle()
	for _, v := range s {
		out = append(out, un(v))
	}
	return out, t == &s
}
