// Package adapt gives the harness plain interfaces to the library. It is compiled
// with race instrumentation and touches all payload memory, so that missing
// happens-before edges around the payload are detected.
package adapt

import (
	"strconv"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
)

type Pool interface {
	Run(id int) bool
	Stop()
	Workers() int64
}

type Item struct {
	ID   int
	A, B int
	Seen int
}

type itemPool struct {
	p *gopoolx.TimedPool[*Item]
}

func (x itemPool) Run(id int) bool {
	it := &Item{ID: id}
	it.A = id*7 + 1
	it.B = id ^ 0x55
	return x.p.Run(it)
}
func (x itemPool) Stop()          { x.p.Stop() }
func (x itemPool) Workers() int64 { return x.p.Workers() }

type intPool struct{ p *gopoolx.TimedPool[int] }

func (x intPool) Run(id int) bool { return x.p.Run(id - 1) }
func (x intPool) Stop()           { x.p.Stop() }
func (x intPool) Workers() int64  { return x.p.Workers() }

type Big struct {
	S string
	N [6]int
	M map[int]int
}

type bigPool struct{ p *gopoolx.TimedPool[Big] }

func (x bigPool) Run(id int) bool {
	b := Big{S: string(rune('a' + id%26)), M: map[int]int{id: id + 1}}
	for i := range b.N {
		b.N[i] = id * (i + 1)
	}
	return x.p.Run(b)
}
func (x bigPool) Stop()          { x.p.Stop() }
func (x bigPool) Workers() int64 { return x.p.Workers() }

// anyPool has values of several types, nil and other zero values among them.
type anyPool struct{ p *gopoolx.TimedPool[any] }

func (x anyPool) Run(id int) bool {
	switch {
	case id == 1:
		return x.p.Run(nil)
	case id == 2:
		return x.p.Run("")
	case id == 3:
		return x.p.Run((*Item)(nil))
	case id%3 == 0:
		return x.p.Run(id - 6)
	case id%3 == 1:
		return x.p.Run(strconv.Itoa(id))
	default:
		return x.p.Run(&Item{ID: id, A: id * 3})
	}
}
func (x anyPool) Stop()          { x.p.Stop() }
func (x anyPool) Workers() int64 { return x.p.Workers() }

func anyID(v any) int {
	switch v := v.(type) {
	case nil:
		return 1
	case string:
		if v == "" {
			return 2
		}
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	case *Item:
		if v == nil {
			return 3
		}
		if v.A == v.ID*3 {
			return v.ID
		}
	case int:
		return v + 6
	}
	return -1
}

// funPool has function values, one of them nil.
type funPool struct {
	p *gopoolx.TimedPool[func() int]
}

func (x funPool) Run(id int) bool {
	if id == 1 {
		return x.p.Run(nil)
	}
	return x.p.Run(func() int { return id })
}
func (x funPool) Stop()          { x.p.Stop() }
func (x funPool) Workers() int64 { return x.p.Workers() }

// NewPool makes a pool; handler gets the id, or -1 when the value was changed.
func NewPool(kind int, max int64, handler func(id int), idle, gc time.Duration, preheat int) (Pool, error) {
	switch kind {
	case 0:
		p, err := gopoolx.NewTimedPool(max, func(it *Item) {
			id := it.ID
			if it.A != id*7+1 || it.B != id^0x55 {
				id = -1
			}
			it.Seen++
			handler(id)
			it.Seen++
		}, idle, gc, preheat)
		if err != nil {
			return nil, err
		}
		return itemPool{p}, nil
	case 1:
		p, err := gopoolx.NewTimedPool(max, func(v int) { handler(v + 1) }, idle, gc, preheat)
		if err != nil {
			return nil, err
		}
		return intPool{p}, nil
	case 3:
		p, err := gopoolx.NewTimedPool(max, func(v any) { handler(anyID(v)) }, idle, gc, preheat)
		if err != nil {
			return nil, err
		}
		return anyPool{p}, nil
	case 4:
		p, err := gopoolx.NewTimedPool(max, func(f func() int) {
			if f == nil {
				handler(1)
				return
			}
			handler(f())
		}, idle, gc, preheat)
		if err != nil {
			return nil, err
		}
		return funPool{p}, nil
	default:
		p, err := gopoolx.NewTimedPool(max, func(b Big) {
			id := b.N[0]
			ok := len(b.M) == 1 && b.M[id] == id+1 && b.S == string(rune('a'+id%26))
			for i := range b.N {
				ok = ok && b.N[i] == id*(i+1)
			}
			if !ok {
				id = -1
			}
			handler(id)
		}, idle, gc, preheat)
		if err != nil {
			return nil, err
		}
		return bigPool{p}, nil
	}
}
