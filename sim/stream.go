package sim

// PCG-like small deterministic generator (splitmix64); independent of math/rand.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{s: Mix(seed ^ 0xa0761d6478bd642f)} }

func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (r *RNG) Uint64() uint64 { r.s += 0x9e3779b97f4a7c15; return Mix(r.s) }

// Intn returns a value in [0,n).
func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64()>>11) % n
}

// Stream is one recorded sequence of choices. While generating, values come from
// the RNG (or from a strategy) and are recorded; while replaying they come from
// the recording, reduced into range, and are 0 (the simplest choice) past its end.
type Stream struct {
	replay bool
	vals   []uint32
	pos    int
	rng    *RNG
}

func GenStream(seed uint64) *Stream { return &Stream{rng: NewRNG(seed)} }

func ReplayStream(vals []uint32) *Stream {
	return &Stream{replay: true, vals: vals, rng: NewRNG(0)}
}

func (s *Stream) Vals() []uint32 {
	if s.replay {
		n := s.pos
		if n > len(s.vals) {
			n = len(s.vals)
		}
		return s.vals[:n]
	}
	return s.vals
}

// Int draws a value in [0,n); 0 is by convention the simplest choice.
func (s *Stream) Int(n int) int {
	if n <= 1 {
		return 0
	}
	if s.replay {
		return s.next(n)
	}
	v := s.rng.Intn(n)
	s.vals = append(s.vals, uint32(v))
	s.pos++
	return v
}

// Pick records the value chosen by a generation strategy (or replays it).
func (s *Stream) Pick(n int, gen func(r *RNG) int) int {
	if n <= 1 {
		return 0
	}
	if s.replay {
		return s.next(n)
	}
	v := gen(s.rng)
	s.vals = append(s.vals, uint32(v))
	s.pos++
	return v
}

// Flip is true with probability p/10000.
func (s *Stream) Flip(p int) bool {
	if p <= 0 {
		return false
	}
	return s.Pick(2, func(r *RNG) int {
		if r.Intn(10000) < p {
			return 1
		}
		return 0
	}) == 1
}

func (s *Stream) next(n int) int {
	if s.pos >= len(s.vals) {
		s.pos++
		return 0
	}
	v := int(s.vals[s.pos])
	s.pos++
	if v >= n {
		v %= n
	}
	return v
}
