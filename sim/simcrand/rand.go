// Package simcrand replaces crypto/rand by a seeded source that can fail.
package simcrand

import (
	"crypto/rand"
	"errors"
	"io"
	"math/big"

	"verif/sim"
)

// Source lets a harness decide what one read of the random source does: it is
// given the length and returns how many bytes to deliver and the error.
type Source func(n int) (int, error)

var ErrRandom = errors.New("simulated failure of the random source")

const key = "simcrand.source"

// SetSource installs the fault decision for this run.
func SetSource(s Source) { sim.Active().Local.Set(key, s) }

// Hook, when set in the world, sees every delivered random block.
func SetObserver(f func([]byte)) { sim.Active().Local.Set("simcrand.obs", f) }

type sparse struct {
	at int
	n  uint32
}

// SetSparse makes the source deliver blocks that never repeat but differ in one
// place only.
func SetSparse(at int) { sim.Active().Local.Set("simcrand.sparse", &sparse{at: at}) }

func n0(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	sim.Step(71)
	w := sim.Active()
	if w == nil {
		return rand.Read(b)
	}
	n := len(b)
	var err error
	if s, ok := w.Local.Get(key).(Source); ok {
		n, err = s(len(b))
	}
	if sp, ok := w.Local.Get("simcrand.sparse").(*sparse); ok && len(b) >= 8 && len(b) <= 16 {
		// distinct blocks that differ in one 16-bit place only; what is larger may
		// serve for several nonces, which must differ
		sp.n++
		for i := 0; i < n; i++ {
			b[i] = byte(i * 37)
		}
		b[sp.at%n0(n)] = byte(sp.n)
		b[(sp.at+1)%n0(n)] ^= byte(sp.n >> 8)
	} else {
		for i := 0; i < n; i++ {
			b[i] = byte(w.Rand.Uint64() >> 24)
		}
	}
	if f, ok := w.Local.Get("simcrand.obs").(func([]byte)); ok && n > 0 {
		f(append([]byte(nil), b[:n]...))
	}
	sim.RaceWrites(b[:n])
	sim.Step(72)
	return n, err
}

var Reader io.Reader = reader{}

// Read has the contract of rand.Read: n == len(b) if and only if err == nil.
func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(r, max) }

func Text() string {
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	if _, err := Read(b); err != nil {
		panic(err)
	}
	for i := range b {
		b[i] = abc[b[i]%32]
	}
	return string(b)
}
