package adapt

import (
	"github.com/unsafe-risk/utilx/functionalx/lazyx"
	"github.com/unsafe-risk/utilx/syncx/lockx"
)

// Lazy is a lazy value whose constructor calls ctor and gives the number it returns
// (-9 from Get: the value was not complete).
type Lazy interface{ Get() int }

type lazy[T any] struct {
	l  *lazyx.Lazy[T]
	un func(T) int
}

func (l lazy[T]) Get() int { return l.un(l.l.Get()) }

type bigValue struct {
	N  int
	A  [40]int
	P  *Item
	M  map[int]int
	Ss []string
}

func mkBig(n int) bigValue {
	b := bigValue{N: n, P: mkItem(n), M: map[int]int{n: n}}
	for i := range b.A {
		b.A[i] = n + i
	}
	b.Ss = append(b.Ss, mkStr(n))
	return b
}

func rdBig(b bigValue) int {
	for i := range b.A {
		if b.A[i] != b.N+i {
			return -9
		}
	}
	if rdItem(b.P) != b.N || b.M[b.N] != b.N || len(b.Ss) != 1 || b.Ss[0] != mkStr(b.N) {
		return -9
	}
	return b.N
}

const LazyKinds = 7

func NewLazy(kind int, ctor func() int) Lazy {
	switch kind {
	case 0:
		return lazy[int]{lazyx.New(ctor), func(x int) int { return x }}
	case 1:
		return lazy[*Item]{lazyx.New(func() *Item {
			p := &Item{}
			n := ctor()
			p.ID, p.A, p.B = n, n*7+1, n^0x55
			return p
		}), func(p *Item) int {
			if p == nil || rdItem(p) != p.ID {
				return -9
			}
			return p.ID
		}}
	case 2:
		return lazy[bigValue]{lazyx.New(func() bigValue { return mkBig(ctor()) }), rdBig}
	case 3: // a nil pointer is a value too
		return lazy[*Item]{lazyx.New(func() *Item { ctor(); return nil }), func(p *Item) int {
			if p != nil {
				return -9
			}
			return 0
		}}
	case 4:
		return lazy[error]{lazyx.New(func() error { return mkErr(ctor()) }), func(e error) int {
			if e == nil {
				return 0
			}
			return unErr(e)
		}}
	case 5:
		return lazy[func() int]{lazyx.New(func() func() int {
			p := mkItem(ctor())
			return func() int { return rdItem(p) }
		}), func(f func() int) int {
			if f == nil {
				return -9
			}
			return f()
		}}
	default:
		return lazy[string]{lazyx.New(func() string { return mkC2(ctor()) }), unStr}
	}
}

func mkC2(x int) string { return string(mkC(x)) }

// Locked is a set of objects of one type, each holding a counter.
type Locked interface {
	Len() int
	// Lock locks object i; f is told whether it was given the object's own pointer,
	// and may read and write the counter with get and set.
	Lock(i int, f func(own bool, get func() int, set func(int)))
}

type lockedPtrs[T any] struct {
	objs []*T
	get  func(*T) int
	set  func(*T, int)
}

func (l lockedPtrs[T]) Len() int { return len(l.objs) }
func (l lockedPtrs[T]) Lock(i int, f func(own bool, get func() int, set func(int))) {
	o := l.objs[i]
	lockx.Lock(o, func(p *T) {
		if p == nil {
			p = o
			f(false, func() int { return l.get(o) }, func(x int) { l.set(o, x) })
			return
		}
		f(p == o, func() int { return l.get(p) }, func(x int) { l.set(p, x) })
	})
}

type selfNode struct {
	Self *selfNode
	N    int
}

type pair struct{ A, B int }

const LockKinds = 10

// NewLockedEmpty is an object of a type without a size; what it protects lies outside.
func NewLockedEmpty(kind int) Locked {
	n := 0
	switch kind {
	case 0:
		return newLocked(1, func(int) *struct{} { return new(struct{}) }, func(*struct{}) int { return n }, func(_ *struct{}, x int) { n = x })
	case 1:
		return newLocked(1, func(int) *[0]int { return new([0]int) }, func(*[0]int) int { return n }, func(_ *[0]int, x int) { n = x })
	}
	var all struct { // at the end of something larger
		a    int
		gate selfless
	}
	return newLocked(1, func(int) *selfless { return &all.gate }, func(*selfless) int { return n }, func(_ *selfless, x int) { n = x })
}

type selfless struct{}

func NewLocked(kind, n int) Locked {
	switch kind {
	case 0:
		return newLocked(n, func(i int) *int { return new(int) }, func(p *int) int { return *p }, func(p *int, x int) { *p = x })
	case 1:
		return newLocked(n, func(i int) *Item { return &Item{} }, func(p *Item) int { return p.Seen }, func(p *Item, x int) { p.Seen = x; p.A = x; p.B = -x })
	case 2: // neighbours in one array of bytes
		arr := make([]byte, n+16)
		return newLocked(n, func(i int) *byte { return &arr[i] }, func(p *byte) int { return int(*p) }, func(p *byte, x int) { *p = byte(x) })
	case 3:
		return newLocked(n, func(i int) *string { return new(string) }, func(p *string) int { return len(*p) }, func(p *string, x int) { *p = string(make([]byte, x)) })
	case 4: // a pointer variable, nil at first
		return newLocked(n, func(i int) **Item { return new(*Item) }, func(p **Item) int {
			if *p == nil {
				return 0
			}
			return (*p).ID
		}, func(p **Item, x int) { *p = &Item{ID: x} })
	case 5:
		return newLocked(n, func(i int) *map[int]int { m := map[int]int{}; return &m }, func(p *map[int]int) int { return (*p)[1] }, func(p *map[int]int, x int) { (*p)[1] = x })
	case 6:
		return newLocked(n, func(i int) *any { return new(any) }, func(p *any) int { return unAny(*p) }, func(p *any, x int) { *p = x })
	case 7: // the first word points to itself
		return newLocked(n, func(i int) *selfNode { s := &selfNode{}; s.Self = s; return s }, func(p *selfNode) int { return p.N }, func(p *selfNode, x int) { p.N = x })
	case 8: // elements of one slice
		s := make([]pair, n+16)
		return newLocked(n, func(i int) *pair { return &s[i] }, func(p *pair) int { return p.A }, func(p *pair, x int) { p.A, p.B = x, x })
	default:
		return newLocked(n, func(i int) *[]int { return new([]int) }, func(p *[]int) int { return len(*p) }, func(p *[]int, x int) {
			for len(*p) < x {
				*p = append(*p, len(*p))
			}
		})
	}
}

func newLocked[T any](n int, mk func(int) *T, get func(*T) int, set func(*T, int)) Locked {
	l := lockedPtrs[T]{get: get, set: set}
	for i := 0; i < n; i++ {
		l.objs = append(l.objs, mk(i))
	}
	return l
}
