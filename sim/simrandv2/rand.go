// Package simrandv2 replaces the global generator of math/rand/v2.
package simrandv2

import (
	"math/rand/v2"

	"verif/sim"
)

type src struct{}

func (src) Uint64() uint64 {
	if w := sim.Active(); w != nil {
		return w.Rand.Uint64()
	}
	return rand.Uint64()
}

var r = rand.New(src{})

func Int64() int64                       { return r.Int64() }
func Uint32() uint32                     { return r.Uint32() }
func Uint64() uint64                     { return r.Uint64() }
func Int32() int32                       { return r.Int32() }
func Int() int                           { return r.Int() }
func Uint() uint                         { return r.Uint() }
func Int64N(n int64) int64               { return r.Int64N(n) }
func Uint64N(n uint64) uint64            { return r.Uint64N(n) }
func Int32N(n int32) int32               { return r.Int32N(n) }
func Uint32N(n uint32) uint32            { return r.Uint32N(n) }
func IntN(n int) int                     { return r.IntN(n) }
func UintN(n uint) uint                  { return r.UintN(n) }
func Float64() float64                   { return r.Float64() }
func Float32() float32                   { return r.Float32() }
func Perm(n int) []int                   { return r.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r.Shuffle(n, swap) }
func NormFloat64() float64               { return r.NormFloat64() }
func ExpFloat64() float64                { return r.ExpFloat64() }
