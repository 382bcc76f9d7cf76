package adapt

import (
	"github.com/unsafe-risk/utilx/syncx/syncpoolx"
)

// Obj is an object of a typed pool; the same number always means the same object.
type Obj interface {
	ID() int
	Write(v int)
	Read() int // what Write wrote, -1 if the parts disagree
}

// ObjPool is a typed object pool.
type ObjPool interface {
	Init(ctor func() int) // ctor returns the identity of the object it makes
	Get() Obj             // nil for a nil object
	Put(Obj)
	Make(id int) Obj // an object from elsewhere
}

type bag struct {
	ID   int
	A    int
	Tail []int
	M    *int
}

type bagObj struct{ p *bag }

func (o bagObj) ID() int { return o.p.ID }
func (o bagObj) Write(v int) {
	o.p.A = v
	o.p.Tail = append(o.p.Tail[:0], v, v+1)
	x := v
	o.p.M = &x
}
func (o bagObj) Read() int {
	if o.p.M == nil {
		if o.p.A == 0 && len(o.p.Tail) == 0 {
			return 0
		}
		return -1
	}
	if len(o.p.Tail) != 2 || o.p.Tail[0] != o.p.A || o.p.Tail[1] != o.p.A+1 || *o.p.M != o.p.A {
		return -1
	}
	return o.p.A
}

type arrObj struct{ p *[40]int }

func (o arrObj) ID() int { return o.p[0] }
func (o arrObj) Write(v int) {
	for i := 1; i < len(o.p); i++ {
		o.p[i] = v
	}
}
func (o arrObj) Read() int {
	for i := 2; i < len(o.p); i++ {
		if o.p[i] != o.p[1] {
			return -1
		}
	}
	return o.p[1]
}

// ptrObj is an object that is itself a pointer.
type ptrObj struct{ p **bag }

func (o ptrObj) ID() int     { return (*o.p).ID }
func (o ptrObj) Write(v int) { bagObj{*o.p}.Write(v) }
func (o ptrObj) Read() int   { return bagObj{*o.p}.Read() }

// faceObj is an object of interface type.
type faceObj struct{ p *any }

func (o faceObj) ID() int     { return (*o.p).(*bag).ID }
func (o faceObj) Write(v int) { bagObj{(*o.p).(*bag)}.Write(v) }
func (o faceObj) Read() int   { return bagObj{(*o.p).(*bag)}.Read() }

type objPool[T any] struct {
	p    *syncpoolx.Pool[T]
	mk   func(id int) *T
	wrap func(*T) Obj
	un   func(Obj) *T
}

func (p objPool[T]) Init(ctor func() int) { p.p.Init(func() *T { return p.mk(ctor()) }) }
func (p objPool[T]) Get() Obj {
	x := p.p.Get()
	if x == nil {
		return nil
	}
	return p.wrap(x)
}
func (p objPool[T]) Put(o Obj)       { p.p.Put(p.un(o)) }
func (p objPool[T]) Make(id int) Obj { return p.wrap(p.mk(id)) }

// NewObjPool makes an uninitialized pool of one of four object types.
func NewObjPool(kind int) ObjPool {
	switch kind {
	case 0:
		return objPool[bag]{p: new(syncpoolx.Pool[bag]),
			mk: func(id int) *bag { return &bag{ID: id} }, wrap: func(b *bag) Obj { return bagObj{b} }, un: func(o Obj) *bag { return o.(bagObj).p }}
	case 1:
		return objPool[[40]int]{p: new(syncpoolx.Pool[[40]int]),
			mk:   func(id int) *[40]int { return &[40]int{id} },
			wrap: func(b *[40]int) Obj { return arrObj{b} }, un: func(o Obj) *[40]int { return o.(arrObj).p }}
	case 2:
		return objPool[*bag]{p: new(syncpoolx.Pool[*bag]),
			mk:   func(id int) **bag { b := &bag{ID: id}; return &b },
			wrap: func(b **bag) Obj { return ptrObj{b} }, un: func(o Obj) **bag { return o.(ptrObj).p }}
	}
	return objPool[any]{p: new(syncpoolx.Pool[any]),
		mk:   func(id int) *any { var a any = &bag{ID: id}; return &a },
		wrap: func(b *any) Obj { return faceObj{b} }, un: func(o Obj) *any { return o.(faceObj).p }}
}
