package adapt

import (
	ldeque "github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
	llist "github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	lqueue "github.com/unsafe-risk/utilx/dsx/linkedx/queuex"
	lstack "github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	slist "github.com/unsafe-risk/utilx/dsx/slicex/listx"
	squeue "github.com/unsafe-risk/utilx/dsx/slicex/queuex"
	sstack "github.com/unsafe-risk/utilx/dsx/slicex/stackx"

	"github.com/unsafe-risk/utilx/dsx"
)

// Containers of value numbers. The element type varies with the kind.

type Deque interface {
	PushFront(v int)
	PushBack(v int)
	PopFront() (int, bool)
	PopBack() (int, bool)
	PeekFront() (int, bool)
	PeekBack() (int, bool)
}

type List interface {
	Append(v int)
	Insert(i, v int)
	Remove(i int) (int, bool)
	At(i int) (int, bool)
	Iterate(f func(v int) bool)
	Len() int
}

type Queue interface {
	Enqueue(v int) bool
	Dequeue() (int, bool)
	Peek() (int, bool)
	IsEmpty() bool
}

type Stack interface {
	Push(v int) bool
	Pop() (int, bool)
	Peek() (int, bool)
	Len() int
}

type elem[T any] struct {
	val func(int) T
	unv func(T) int
}

func (e elem[T]) out(v T, ok bool) (int, bool) {
	if !ok {
		return 0, false
	}
	return e.unv(v), true
}

type dequeOf[T any] struct {
	elem[T]
	d dsx.Deque[T]
}

func (d dequeOf[T]) PushFront(v int)        { d.d.PushFront(d.val(v)) }
func (d dequeOf[T]) PushBack(v int)         { d.d.PushBack(d.val(v)) }
func (d dequeOf[T]) PopFront() (int, bool)  { return d.out(d.d.PopFront()) }
func (d dequeOf[T]) PopBack() (int, bool)   { return d.out(d.d.PopBack()) }
func (d dequeOf[T]) PeekFront() (int, bool) { return d.out(d.d.PeekFront()) }
func (d dequeOf[T]) PeekBack() (int, bool)  { return d.out(d.d.PeekBack()) }

type listOf[T any] struct {
	elem[T]
	l dsx.List[T]
}

func (l listOf[T]) Append(v int)             { l.l.Append(l.val(v)) }
func (l listOf[T]) Insert(i, v int)          { l.l.Insert(i, l.val(v)) }
func (l listOf[T]) Remove(i int) (int, bool) { return l.out(l.l.Remove(i)) }
func (l listOf[T]) At(i int) (int, bool)     { return l.out(l.l.At(i)) }
func (l listOf[T]) Iterate(f func(int) bool) { l.l.Iterate(func(v T) bool { return f(l.unv(v)) }) }
func (l listOf[T]) Len() int                 { return l.l.Len() }

type queueOf[T any] struct {
	elem[T]
	q dsx.Queue[T]
}

func (q queueOf[T]) Enqueue(v int) bool   { return q.q.Enqueue(q.val(v)) }
func (q queueOf[T]) Dequeue() (int, bool) { return q.out(q.q.Dequeue()) }
func (q queueOf[T]) Peek() (int, bool)    { return q.out(q.q.Peek()) }
func (q queueOf[T]) IsEmpty() bool        { return q.q.IsEmpty() }

type stackOf[T any] struct {
	elem[T]
	s dsx.Stack[T]
}

func (s stackOf[T]) Push(v int) bool   { return s.s.Push(s.val(v)) }
func (s stackOf[T]) Pop() (int, bool)  { return s.out(s.s.Pop()) }
func (s stackOf[T]) Peek() (int, bool) { return s.out(s.s.Peek()) }
func (s stackOf[T]) Len() int          { return s.s.Len() }

func (e elem[T]) deque() Deque { return dequeOf[T]{e, ldeque.New[T]()} }
func (e elem[T]) list(linked bool) List {
	if linked {
		return listOf[T]{e, llist.New[T]()}
	}
	return listOf[T]{e, new(slist.List[T])}
}
func (e elem[T]) queue(ring int) Queue {
	if ring > 0 {
		return queueOf[T]{e, squeue.New[T](ring)}
	}
	return queueOf[T]{e, lqueue.New[T]()}
}
func (e elem[T]) stack(linked bool) Stack {
	if linked {
		return stackOf[T]{e, lstack.New[T]()}
	}
	return stackOf[T]{e, new(sstack.Stack[T])}
}

// anyOf spreads the numbers over values of unrelated types, some not comparable; 0 is nil.
func anyOf(v int) any {
	switch {
	case v == 0:
		return nil
	case v%4 == 0:
		return []int{v}
	case v%4 == 1:
		return mkItem(v)
	case v%4 == 2:
		return mkStr(v)
	}
	return v
}

func rdAny(a any) int {
	switch x := a.(type) {
	case nil:
		return 0
	case []int:
		if len(x) == 1 {
			return x[0]
		}
	case *Item:
		return rdItem(x)
	case string:
		return unStr(x)
	case int:
		return x
	}
	return -9
}

// A function cannot be compared, hashed or printed; 0 is nil.
func mkFn(v int) func() int {
	if v == 0 {
		return nil
	}
	p := mkItem(v)
	return func() int { return rdItem(p) }
}

func unFn(f func() int) int {
	if f == nil {
		return 0
	}
	return f()
}

const (
	ElemKinds = 7
	ElemEmpty = 6 // elements without a size; all are 0
)

var elems = [ElemKinds]interface {
	deque() Deque
	list(linked bool) List
	queue(ring int) Queue
	stack(linked bool) Stack
}{
	elem[int]{same, same},
	elem[string]{mkStr, unStr},
	elem[*Item]{mkItem, rdItem},
	elem[bigValue]{mkBig, rdBig},
	elem[any]{anyOf, rdAny},
	elem[func() int]{mkFn, unFn},
	elem[struct{}]{func(int) struct{} { return struct{}{} }, func(struct{}) int { return 0 }},
}

func NewDeque(kind int) Deque              { return elems[kind].deque() }
func NewList(kind int, linked bool) List   { return elems[kind].list(linked) }
func NewStack(kind int, linked bool) Stack { return elems[kind].stack(linked) }

// NewQueue makes a linked queue, or a ring that holds up to ring elements.
func NewQueue(kind int, ring int) Queue { return elems[kind].queue(ring) }
