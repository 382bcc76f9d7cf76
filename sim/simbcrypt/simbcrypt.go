// Package simbcrypt runs the real bcrypt, at minimal cost unless told otherwise. Its
// salt comes from the simulated random source.
package simbcrypt

import (
	"crypto/rand"
	"io"

	"golang.org/x/crypto/bcrypt"
	"verif/sim"
	"verif/sim/simcrand"
)

type source struct{ real io.Reader }

func (s source) Read(b []byte) (int, error) {
	if sim.Active() == nil {
		return s.real.Read(b)
	}
	return simcrand.Reader.Read(b)
}

func init() { rand.Reader = source{rand.Reader} }

func SetFull(on bool) { sim.Active().Local.Set("bcrypt.full", on) }

func limit() int {
	if w := sim.Active(); w != nil {
		if full, _ := w.Local.Get("bcrypt.full").(bool); !full {
			return bcrypt.MinCost
		}
	}
	return bcrypt.DefaultCost
}

func GenerateFromPassword(password []byte, cost int) ([]byte, error) {
	if sim.Active() != nil && cost >= bcrypt.MinCost && cost <= bcrypt.MaxCost {
		cost = min(cost, limit())
	}
	return bcrypt.GenerateFromPassword(password, cost)
}

// CompareHashAndPassword does not spend the exponential cost a damaged cost field asks
// for: a hash made at one cost never matches at another.
func CompareHashAndPassword(hash, password []byte) error {
	if sim.Active() != nil {
		c, err := bcrypt.Cost(hash)
		if err != nil {
			return err
		}
		if c > limit()+2 {
			return bcrypt.ErrMismatchedHashAndPassword
		}
	}
	return bcrypt.CompareHashAndPassword(hash, password)
}
