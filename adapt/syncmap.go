package adapt

import (
	"strconv"

	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
)

// SyncMap is a synchronized map from small key numbers to value numbers. A value of
// -2 says that what came out is not what went in.
type SyncMap interface {
	Set(k, v int)
	Get(k int) int
	Has(k int) bool
	Delete(k int)
	Clear()
	Size() int
	Keys() []int
	Values() []int
	// SetBad and GetBad use a key that cannot be hashed; they report whether that panicked.
	Bad(write bool) (ok, panicked bool)
}

type smap[K comparable, V any] struct {
	m    *syncmapx.Map[K, V]
	key  func(int) K
	unk  func(K) int
	val  func(int) V
	unv  func(V) int
	zero func(*K)
	bad  func() K
}

func (s smap[K, V]) Set(k, v int)   { s.m.Set(s.key(k), s.val(v)) }
func (s smap[K, V]) Get(k int) int  { return s.unv(s.m.Get(s.key(k))) }
func (s smap[K, V]) Has(k int) bool { return s.m.Has(s.key(k)) }
func (s smap[K, V]) Delete(k int)   { s.m.Delete(s.key(k)) }
func (s smap[K, V]) Clear()         { s.m.Clear() }
func (s smap[K, V]) Size() int      { return s.m.Size() }
func (s smap[K, V]) Keys() []int {
	ks := s.m.Keys()
	out := make([]int, len(ks))
	for i, k := range ks {
		out[i] = s.unk(k)
	}
	var z K
	for i := range ks { // the slice is the caller's
		ks[i] = z
	}
	return out
}
func (s smap[K, V]) Values() []int {
	vs := s.m.Values()
	out := make([]int, len(vs))
	for i, v := range vs {
		out[i] = s.unv(v)
	}
	var z V
	for i := range vs {
		vs[i] = z
	}
	return out
}
func (s smap[K, V]) Bad(write bool) (ok, panicked bool) {
	if s.bad == nil {
		return false, false
	}
	defer func() {
		if recover() != nil {
			ok, panicked = true, true
		}
	}()
	if write {
		s.m.Set(s.bad(), s.val(1))
	} else {
		s.m.Get(s.bad())
	}
	return true, false
}

type keyErr struct{ k int }

func (e keyErr) Error() string { return strconv.Itoa(e.k) }

type badErr struct{ _ []int }

func (badErr) Error() string { return "" }

func mkItem(v int) *Item {
	if v == 0 {
		return nil
	}
	return &Item{ID: v, A: v*7 + 1, B: v ^ 0x55}
}

func rdItem(p *Item) int {
	if p == nil {
		return 0
	}
	if p.A != p.ID*7+1 || p.B != p.ID^0x55 {
		return -2
	}
	return p.ID
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		return -2
	}
	return n
}

const SyncKinds = 7

func NewSyncMap(kind int) SyncMap {
	switch kind {
	case 0:
		id := func(x int) int { return x }
		return smap[int, int]{m: syncmapx.New[int, int](), key: id, unk: id, val: id, unv: id}
	case 1:
		return smap[string, *Item]{m: syncmapx.New[string, *Item](), key: strconv.Itoa, unk: atoi, val: mkItem, unv: rdItem}
	case 2:
		return smap[[2]int8, string]{m: syncmapx.New[[2]int8, string](),
			key: func(k int) [2]int8 { return [2]int8{int8(k >> 6), int8(k & 63)} },
			unk: func(k [2]int8) int { return int(k[0])<<6 | int(k[1]) },
			val: func(v int) string {
				if v == 0 {
					return ""
				}
				return strconv.Itoa(v)
			},
			unv: func(s string) int {
				if s == "" {
					return 0
				}
				return atoi(s)
			}}
	case 4: // values that cannot be compared; nil is one of them
		return smap[float64, any]{m: syncmapx.New[float64, any](),
			key: func(k int) float64 { return float64(k)/8 - 1 },
			unk: func(k float64) int { return int((k + 1) * 8) },
			val: anyOf, unv: rdAny}
	case 5: // keys of another interface type
		return smap[error, func() int]{m: syncmapx.New[error, func() int](),
			key: func(k int) error { return keyErr{k} },
			unk: func(k error) int {
				if e, ok := k.(keyErr); ok {
					return e.k
				}
				return -2
			},
			val: mkFn, unv: unFn,
			bad: func() error { return badErr{} }}
	case 6:
		return smap[word, bigValue]{m: syncmapx.New[word, bigValue](),
			key: func(k int) word { return word(mkStr(k)) },
			unk: func(k word) int { return unStr(string(k)) },
			val: func(v int) bigValue {
				if v == 0 {
					return bigValue{}
				}
				return mkBig(v)
			},
			unv: func(b bigValue) int {
				if b.P == nil && b.N == 0 {
					return 0
				}
				return rdBig(b)
			}}
	default:
		return smap[any, Item]{m: syncmapx.New[any, Item](),
			key: func(k int) any {
				if k%2 == 0 {
					return k
				}
				return strconv.Itoa(k)
			},
			unk: func(k any) int {
				switch x := k.(type) {
				case int:
					return x
				case string:
					return atoi(x)
				}
				return -2
			},
			val: func(v int) Item {
				if v == 0 {
					return Item{}
				}
				return *mkItem(v)
			},
			unv: func(i Item) int {
				if i == (Item{}) {
					return 0
				}
				return rdItem(&i)
			},
			bad: func() any { return []int{1} }}
	}
}
