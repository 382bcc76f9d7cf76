// Package simrand replaces the global generator of math/rand.
package simrand

import (
	"math/rand"

	"verif/sim"
)

type src struct{}

func (src) Uint64() uint64 {
	if w := sim.Active(); w != nil {
		v := w.Rand.Uint64()
		if n, _ := w.Local.Get("rand.coarse").(int); n > 0 && int(v>>8&0xff) < n {
			switch v & 3 {
			case 0:
				return 0
			case 1:
				return ^uint64(0)
			case 2:
				return 1 << 63
			}
			return v & 0xff
		}
		return v
	}
	return rand.Uint64()
}
func (s src) Int63() int64 { return int64(s.Uint64() >> 1) }
func (src) Seed(int64)     {}

// SetCoarse makes n of 256 values of this run's source extreme ones.
func SetCoarse(n int) { sim.Active().Local.Set("rand.coarse", n) }

var r = rand.New(src{})

func Seed(int64)                         {}
func Int63() int64                       { return r.Int63() }
func Uint32() uint32                     { return r.Uint32() }
func Uint64() uint64                     { return r.Uint64() }
func Int31() int32                       { return r.Int31() }
func Int() int                           { return r.Int() }
func Int63n(n int64) int64               { return r.Int63n(n) }
func Int31n(n int32) int32               { return r.Int31n(n) }
func Intn(n int) int                     { return r.Intn(n) }
func Float64() float64                   { return r.Float64() }
func Float32() float32                   { return r.Float32() }
func Perm(n int) []int                   { return r.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r.Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return r.Read(p) }
func NormFloat64() float64               { return r.NormFloat64() }
func ExpFloat64() float64                { return r.ExpFloat64() }
