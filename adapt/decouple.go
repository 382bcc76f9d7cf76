package adapt

import (
	"errors"

	"github.com/unsafe-risk/utilx/iox/decouplex"
)

var ErrDrop = errors.New("dropped")

type Decoupler struct{ d *decouplex.Decoupler }

// NewDecoupler: drop is told the id and length of what it was given (-1: changed).
func NewDecoupler(size int, drop func(id, n int) (int, bool)) *Decoupler {
	if drop == nil {
		return &Decoupler{decouplex.NewDecoupler(uint64(size), nil)}
	}
	return &Decoupler{decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) {
		n, bad := drop(ident(b), len(b))
		if bad {
			return n, ErrDrop
		}
		return n, nil
	})}
}

func fill(b []byte, id int) {
	for i := range b {
		b[i] = spell(id, i)
	}
}

func spell(id, i int) byte { return byte(id + i*(2*id+1) + i>>8) }

func ident(b []byte) int {
	if len(b) == 0 {
		return 0
	}
	id := int(b[0])
	for i := range b {
		if b[i] != spell(id, i) {
			return -1
		}
	}
	return id
}

// Write writes n bytes that spell id, then reuses the slice.
func (d *Decoupler) Write(id, n, spare int) (k int, drop, changed bool) {
	b := make([]byte, n, n+spare)
	fill(b, id)
	k, err := d.d.Write(b)
	changed = n > 0 && ident(b) != id
	for i := range b[:cap(b)] {
		b[:cap(b)][i] = 0xEE
	}
	return k, err == ErrDrop, changed
}

// Next calls view with what was delivered and checks afterwards that it is still there.
func (d *Decoupler) Next(view func(id, n int), torn func(id int)) bool {
	if view == nil {
		return d.d.Next(nil)
	}
	return d.d.Next(func(b []byte) {
		id := ident(b)
		view(id, len(b))
		if ident(b) != id {
			torn(id)
		}
	})
}
